//! Entry points for the symbolic executor: thin C-ABI wrappers over the public
//! API of the crate under test. Nothing here computes anything.
#![allow(clippy::missing_safety_doc)]
use baokeshed::{avx2, portable, portable64, sse41, Hasher, Output};
use std::io::Write;

mod copy;
#[cfg(feature = "ffi")]
mod ffi;

// ------------------------------------------------------------ kernels

#[no_mangle]
pub unsafe extern "C" fn hx_portable_compress(cv: *mut [u32; 8], block: *const [u8; 64], block_len: u8, offset: u64, flags: u8) {
    portable::compress(&mut *cv, &*block, block_len, offset, flags)
}
#[no_mangle]
pub unsafe extern "C" fn hx_portable_compress_xof(cv: *const [u32; 8], block: *const [u8; 64], block_len: u8, offset: u64, flags: u8, out: *mut [u8; 64]) {
    *out = portable::compress_xof(&*cv, &*block, block_len, offset, flags)
}

#[no_mangle]
pub unsafe extern "C" fn hx_sse41_compress(cv: *mut [u32; 8], block: *const [u8; 64], block_len: u8, offset: u64, flags: u8) {
    sse41::compress(&mut *cv, &*block, block_len, offset, flags)
}
#[no_mangle]
pub unsafe extern "C" fn hx_sse41_compress_xof(cv: *const [u32; 8], block: *const [u8; 64], block_len: u8, offset: u64, flags: u8, out: *mut [u8; 64]) {
    *out = sse41::compress_xof(&*cv, &*block, block_len, offset, flags)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable64_compress(cv: *mut [u64; 4], block: *const [u8; 128], block_len: u8, offset: u64, flags: u8) {
    portable64::compress(&mut *cv, &*block, block_len, offset, flags)
}
#[no_mangle]
pub unsafe extern "C" fn hx_portable64_compress_xof(cv: *const [u64; 4], block: *const [u8; 128], block_len: u8, offset: u64, flags: u8, out: *mut [u8; 128]) {
    *out = portable64::compress_xof(&*cv, &*block, block_len, offset, flags)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable_hash_many_64(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 64], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable_hash_many_128(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 128], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable_hash_many_2048(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 2048], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_sse41_hash_many_64(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 64], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    sse41::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_sse41_hash_many_128(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 128], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    sse41::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_sse41_hash_many_2048(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 2048], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    sse41::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_avx2_hash_many_64(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 64], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    avx2::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_avx2_hash_many_128(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 128], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    avx2::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_avx2_hash_many_2048(inputs: *const *const u8, n: usize, key: *const [u32; 8], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 2048], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    avx2::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable64_hash_many_128(inputs: *const *const u8, n: usize, key: *const [u64; 4], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 128], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable64::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable64_hash_many_256(inputs: *const *const u8, n: usize, key: *const [u64; 4], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 256], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable64::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_portable64_hash_many_4096(inputs: *const *const u8, n: usize, key: *const [u64; 4], offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out: *mut u8, out_len: usize) {
    let ins = core::slice::from_raw_parts(inputs as *const &[u8; 4096], n);
    let out = core::slice::from_raw_parts_mut(out, out_len);
    portable64::hash_many(ins, &*key, offset, delta, flags, fs, fe, out)
}


// ------------------------------------------------------------ one-shot

unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}
unsafe fn mk(mode: u8, key: *const [u8; 32]) -> Hasher {
    match mode {
        0 => Hasher::new(),
        1 => Hasher::new_keyed(&*key),
        _ => Hasher::new_derive_key(&*key),
    }
}
unsafe fn one(mode: u8, key: *const [u8; 32], p: *const u8, n: usize) -> [u8; 32] {
    match mode {
        0 => baokeshed::hash(sl(p, n)).into(),
        1 => baokeshed::keyed_hash(&*key, sl(p, n)).into(),
        _ => baokeshed::derive_key(&*key, sl(p, n)),
    }
}
unsafe fn onex(mode: u8, key: *const [u8; 32], p: *const u8, n: usize) -> Output {
    match mode {
        0 => baokeshed::hash_xof(sl(p, n)),
        1 => baokeshed::keyed_hash_xof(&*key, sl(p, n)),
        _ => baokeshed::derive_key_xof(&*key, sl(p, n)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn hx_oneshot(mode: u8, key: *const [u8; 32], p: *const u8, n: usize, out: *mut [u8; 32]) {
    *out = one(mode, key, p, n);
}
/// The hash of n zero bytes.
#[no_mangle]
pub unsafe extern "C" fn hx_zeros(mode: u8, key: *const [u8; 32], n: usize, out: *mut [u8; 32]) {
    let z = std::vec![0u8; n];
    *out = one(mode, key, z.as_ptr(), n);
}
/// `blocks` reads of the extended output, then the hash of the continuation.
#[no_mangle]
pub unsafe extern "C" fn hx_oneshot_xof(mode: u8, key: *const [u8; 32], p: *const u8, n: usize, out: *mut [u8; 64], blocks: usize, tail: *mut [u8; 32]) {
    let mut o = onex(mode, key, p, n);
    for i in 0..blocks {
        *out.add(i) = o.read();
    }
    *tail = o.to_hash().into();
}
/// Reading, cloning and continuing on both.
#[no_mangle]
pub unsafe extern "C" fn hx_output_clone(mode: u8, key: *const [u8; 32], p: *const u8, n: usize, out: *mut [u8; 64]) {
    let mut o = onex(mode, key, p, n);
    *out.add(0) = o.read();
    let mut d = o.clone();
    *out.add(1) = d.read();
    *out.add(2) = o.read();
    *out.add(3) = o.read();
    *out.add(4) = d.read();
    let mut e = [0u8; 64];
    e[..32].copy_from_slice(o.clone().to_hash().as_bytes());
    e[32..].copy_from_slice(d.to_hash().as_bytes());
    *out.add(5) = e;
    *out.add(6) = o.read();
}

// ------------------------------------------------------------ incremental

/// k writes with lengths lens[i] of consecutive pieces of p; via[i] selects
/// the Write interface. Then finalize.
#[no_mangle]
pub unsafe extern "C" fn hx_updates(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, via: u8, out: *mut [u8; 32]) {
    let mut h = mk(mode, key);
    let mut q = p;
    for i in 0..k {
        let n = *lens.add(i);
        if via == 0 {
            h.update(sl(q, n));
        } else {
            let r = h.write(sl(q, n));
            match r {
                Ok(m) => assert!(m == n),
                Err(_) => panic!(),
            }
            match h.flush() {
                Ok(()) => {}
                Err(_) => panic!(),
            }
        }
        q = q.add(n);
    }
    *out = h.finalize().into();
}
#[no_mangle]
pub unsafe extern "C" fn hx_updates_xof(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, out: *mut [u8; 64], blocks: usize) {
    let mut h = mk(mode, key);
    let mut q = p;
    for i in 0..k {
        let n = *lens.add(i);
        h.update(sl(q, n));
        q = q.add(n);
    }
    let mut o = h.finalize_xof();
    for i in 0..blocks {
        *out.add(i) = o.read();
    }
}
/// Finalize in between (twice), clone, continue differently on both.
/// Input: a then b on the original, a then c on the clone.
#[no_mangle]
pub unsafe extern "C" fn hx_observe(mode: u8, key: *const [u8; 32], a: *const u8, na: usize, b: *const u8, nb: usize, c: *const u8, nc: usize, out: *mut [u8; 32]) {
    let mut h = mk(mode, key);
    h.update(sl(a, na));
    *out.add(0) = h.finalize().into();
    let mut x = h.finalize_xof();
    let _ = x.read();
    *out.add(1) = h.finalize().into();
    let mut d = h.clone();
    h.update(sl(b, nb));
    *out.add(2) = d.finalize().into();
    d.update(sl(c, nc));
    *out.add(3) = h.finalize().into();
    *out.add(4) = d.finalize().into();
    *out.add(5) = h.finalize().into();
    drop(d);
    *out.add(6) = h.finalize().into();
}

/// Whether two callers get the same hash (k = 0: one-shot of lens[0] bytes).
#[no_mangle]
pub unsafe extern "C" fn hx_collide(
    mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize,
    mode2: u8, key2: *const [u8; 32], p2: *const u8, lens2: *const usize, k2: usize, same: *mut u8,
) {
    let f = |mode, key, p, lens: *const usize, k| {
        let mut out = [0u8; 32];
        if k == 0 {
            hx_oneshot(mode, key, p, *lens, &mut out);
        } else {
            hx_updates(mode, key, p, lens, k, 0, &mut out);
        }
        out
    };
    *same = (f(mode, key, p, lens, k) == f(mode2, key2, p2, lens2, k2)) as u8;
}

// ------------------------------------------------------------ mid-stream

/// A hasher in the given state, two writes, a hash after each.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_mid(stack: *const [u8; 32], n: usize, kcv: *const [[u32; 8]; 2], offset: u64, count: u64, buf: *const [u8; 64], buf_len: u8, flags: u8, p: *const u8, lens: *const usize, out: *mut [u8; 32]) {
    let mut h = baokeshed::verif::hasher_from_parts(core::slice::from_raw_parts(stack, n), &(*kcv)[0], &(*kcv)[1], offset, count, &*buf, buf_len, flags);
    h.update(sl(p, *lens));
    *out = h.finalize().into();
    h.update(sl(p.add(*lens), *lens.add(1)));
    *out.add(1) = h.finalize().into();
}
#[cfg(baokeshed_verif)]
#[repr(C)]
pub struct Parts {
    pub stack: [[u8; 32]; 53],
    pub num: u64,
    pub kcv: [[u32; 8]; 2],
    pub offset: u64,
    pub count: u64,
    pub buf: [u8; 64],
    pub buf_len: u64,
    pub flags: u64,
}
/// k writes, then the state.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_parts(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, out: *mut Parts) {
    let mut h = mk(mode, key);
    let mut q = p;
    for i in 0..k {
        let n = *lens.add(i);
        h.update(sl(q, n));
        q = q.add(n);
    }
    let s = baokeshed::verif::hasher_parts(&h);
    for (i, x) in s.subtree_hashes.iter().enumerate() {
        if i < 53 {
            (*out).stack[i] = *x;
        }
    }
    (*out).num = s.num_subtrees as u64;
    (*out).kcv = [s.key, s.cv];
    (*out).offset = s.offset;
    (*out).count = s.count;
    (*out).buf = s.buf;
    (*out).buf_len = s.buf_len as u64;
    (*out).flags = s.flags as u64;
}
/// The hasher after k writes, and one put together from its parts.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_pair(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, a: *mut Hasher, b: *mut Hasher) {
    let mut h = mk(mode, key);
    let mut q = p;
    for i in 0..k {
        let n = *lens.add(i);
        h.update(sl(q, n));
        q = q.add(n);
    }
    let s = baokeshed::verif::hasher_parts(&h);
    let g = baokeshed::verif::hasher_from_parts(&s.subtree_hashes[..s.num_subtrees], &s.key, &s.cv, s.offset, s.count, &s.buf, s.buf_len, s.flags);
    a.write(h);
    b.write(g);
}
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_hasher_size() -> usize {
    core::mem::size_of::<Hasher>()
}
/// Extended output from an arbitrary position: two reads, then the hash.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_seek(mode: u8, key: *const [u8; 32], p: *const u8, n: usize, pos: u64, out: *mut [u8; 64], tail: *mut [u8; 32]) {
    let mut o = onex(mode, key, p, n);
    baokeshed::verif::output_seek(&mut o, pos);
    *out = o.read();
    let d = o.clone();
    *out.add(1) = o.read();
    *tail = d.to_hash().into();
    *tail.add(1) = o.to_hash().into();
}

// ------------------------------------------------------------ hash values

#[no_mangle]
pub unsafe extern "C" fn hx_hex(b: *const [u8; 32], out: *mut u8) -> usize {
    let h: baokeshed::Hash = (*b).into();
    let s = h.to_hex();
    let n = s.as_bytes().len();
    core::ptr::copy_nonoverlapping(s.as_bytes().as_ptr(), out, n);
    n
}
#[no_mangle]
pub unsafe extern "C" fn hx_roundtrip(b: *const [u8; 32], out: *mut [u8; 32], out2: *mut [u8; 32]) {
    let h: baokeshed::Hash = (*b).into();
    *out2 = *h.as_bytes();
    let g = h;
    *out = g.into();
}
#[no_mangle]
pub unsafe extern "C" fn hx_eq_hash(a: *const [u8; 32], b: *const [u8; 32]) -> u8 {
    let x: baokeshed::Hash = (*a).into();
    let y: baokeshed::Hash = (*b).into();
    (x == y) as u8
}
#[no_mangle]
pub unsafe extern "C" fn hx_ne_hash(a: *const [u8; 32], b: *const [u8; 32]) -> u8 {
    let x: baokeshed::Hash = (*a).into();
    let y: baokeshed::Hash = (*b).into();
    (x != y) as u8
}
#[no_mangle]
pub unsafe extern "C" fn hx_eq_bytes(a: *const [u8; 32], b: *const [u8; 32]) -> u8 {
    let x: baokeshed::Hash = (*a).into();
    (x == *b) as u8
}
#[no_mangle]
pub unsafe extern "C" fn hx_ne_bytes(a: *const [u8; 32], b: *const [u8; 32]) -> u8 {
    let x: baokeshed::Hash = (*a).into();
    (x != *b) as u8
}

// ------------------------------------------------------------ features

macro_rules! feat {
    ($f:ident, $n:tt) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f() -> u8 {
            is_x86_feature_detected!($n) as u8
        }
    };
}
feat!(hx_feat_avx2, "avx2");
feat!(hx_feat_sse41, "sse4.1");
feat!(hx_feat_avx512f, "avx512f");
feat!(hx_feat_avx512vl, "avx512vl");
feat!(hx_feat_ssse3, "ssse3");
feat!(hx_feat_sse3, "sse3");
feat!(hx_feat_sse42, "sse4.2");
feat!(hx_feat_avx, "avx");
feat!(hx_feat_fma, "fma");
feat!(hx_feat_bmi1, "bmi1");
feat!(hx_feat_bmi2, "bmi2");

// ------------------------------------------------------------ work stealing

#[repr(C)]
pub struct Stolen {
    mode: u64,
    key: *const [u8; 32],
    p: *const u8,
    n: usize,
    out: *mut [u8; 32],
}
#[cfg(all(feature = "rayon", not(feature = "native")))]
extern "C" {
    fn vx_stolen(s: *mut Stolen);
    fn vx_stolen_end();
}
/// Other work of the thread, while it waits for the other half of a join.
#[cfg(all(feature = "rayon", not(feature = "native")))]
#[no_mangle]
pub unsafe extern "C" fn vx_steal() {
    let mut s = core::mem::MaybeUninit::uninit();
    vx_stolen(s.as_mut_ptr());
    let s = s.assume_init();
    hx_oneshot(s.mode as u8, s.key, s.p, s.n, s.out);
    vx_stolen_end();
}

// ------------------------------------------------------------ native replay

#[cfg(feature = "native")]
mod native {
    //! Stand-ins for the executor's external functions.
    #[no_mangle]
    extern "C" fn vx_join_begin() -> u8 {
        let k = std::env::var("VX_JOIN").ok().and_then(|x| x.parse().ok()).unwrap_or(0u8);
        match k {
            0 => 0,
            1 | 2 => 10 + k,
            _ => STEAL.with(|s| {
                let mut s = s.borrow_mut();
                if s.3 {
                    return 0;
                }
                s.2 += 1;
                if s.2 - 1 == s.1 {
                    13
                } else {
                    14
                }
            }),
        }
    }
    type Call = (u8, *const [u8; 32], *const u8, usize, *mut [u8; 32]);
    thread_local! {
        /// what to steal, at which join of this thread, joins so far, stolen
        static STEAL: std::cell::RefCell<(Option<Call>, u32, u32, bool)> = const { std::cell::RefCell::new((None, u32::MAX, 0, false)) };
    }
    /// A one-shot hash; at its given join the thread does another one.
    #[no_mangle]
    pub unsafe extern "C" fn hx_oneshot_steal(
        mode: u8, key: *const [u8; 32], p: *const u8, n: usize, at: u32,
        key2: *const [u8; 32], p2: *const u8, n2: usize, out: *mut [u8; 32], out2: *mut [u8; 32],
    ) {
        STEAL.with(|s| *s.borrow_mut() = (Some((mode, key2, p2, n2, out2)), at, 0, false));
        super::hx_oneshot(mode, key, p, n, out);
    }
    #[no_mangle]
    unsafe extern "C" fn vx_steal() {
        let call = STEAL.with(|s| {
            let mut s = s.borrow_mut();
            s.3 = true;
            s.0.take()
        });
        if let Some((mode, key, p, n, out)) = call {
            super::hx_oneshot(mode, key, p, n, out);
        }
        STEAL.with(|s| s.borrow_mut().3 = false);
    }
    #[no_mangle]
    extern "C" fn vx_task(_: u8) {}
    #[no_mangle]
    extern "C" fn vx_join_end() {}
    #[no_mangle]
    extern "C" fn vx_threads() -> usize {
        std::env::var("VX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(4)
    }
}
/// One-shot hashing again and again until the result is not the expected one
/// (with VX_JOIN=2 both halves of every join run at once).
#[cfg(feature = "native")]
#[no_mangle]
pub unsafe extern "C" fn hx_oneshot_again(mode: u8, key: *const [u8; 32], p: *const u8, n: usize, reps: usize, want: *const [u8; 32], out: *mut [u8; 32]) {
    let t0 = std::time::Instant::now();
    for _ in 0..reps {
        *out = one(mode, key, p, n);
        if *out != *want || t0.elapsed().as_secs() > 40 {
            return;
        }
    }
}
