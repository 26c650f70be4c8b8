//! Entry points for the symbolic executor: thin C-ABI wrappers over the
//! reference implementation. Nothing here computes anything.
#![allow(clippy::missing_safety_doc)]
use reference_impl::Hasher;

unsafe fn mk(mode: u8, key: *const [u8; 32]) -> Hasher {
    match mode {
        0 => Hasher::new(),
        1 => Hasher::new_keyed(&*key),
        _ => Hasher::new_derive_key(&*key),
    }
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}
unsafe fn feed(h: &mut Hasher, p: *const u8, lens: *const usize, k: usize) {
    let mut q = p;
    for i in 0..k {
        let n = *lens.add(i);
        h.update(sl(q, n));
        q = q.add(n);
    }
}
/// k writes, then the output.
#[no_mangle]
pub unsafe extern "C" fn hxr_updates(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, out: *mut u8, n: usize) {
    let mut h = mk(mode, key);
    feed(&mut h, p, lens, k);
    h.finalize(core::slice::from_raw_parts_mut(out, n))
}
/// A write, an output, another write, two outputs.
#[no_mangle]
pub unsafe extern "C" fn hxr_observe(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, a: *mut u8, na: usize, b: *mut u8, nb: usize, c: *mut u8, nc: usize) {
    let mut h = mk(mode, key);
    feed(&mut h, p, lens, 1);
    h.finalize(core::slice::from_raw_parts_mut(a, na));
    feed(&mut h, p.add(*lens), lens.add(1), 1);
    h.finalize(core::slice::from_raw_parts_mut(b, nb));
    h.finalize(core::slice::from_raw_parts_mut(c, nc));
}
#[cfg(baokeshed_verif)]
#[repr(C)]
pub struct Parts {
    stack: [[u32; 8]; 53],
    len: u64,
    key: [u32; 8],
    cv: [u32; 8],
    offset: u64,
    blocks: u64,
    block: [u8; 64],
    block_len: u64,
    flags: u32,
}
#[cfg(baokeshed_verif)]
unsafe fn parts(h: &Hasher, out: *mut Parts) {
    let mut s = [[0; 8]; 53];
    for (to, from) in s.iter_mut().zip(h.verif_stack()) {
        *to = *from;
    }
    let (len, key, cv, offset, blocks, block, block_len, flags) = h.verif_rest();
    out.write(Parts { stack: s, len, key, cv, offset, blocks, block, block_len, flags });
}
/// k writes, then the state.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hxr_parts(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, out: *mut Parts) {
    let mut h = mk(mode, key);
    feed(&mut h, p, lens, k);
    parts(&h, out);
}
/// The hasher after k writes, and one put together from its parts.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hxr_pair(mode: u8, key: *const [u8; 32], p: *const u8, lens: *const usize, k: usize, a: *mut Hasher, b: *mut Hasher) {
    let mut h = mk(mode, key);
    feed(&mut h, p, lens, k);
    let (len, key, cv, offset, blocks, block, block_len, flags) = h.verif_rest();
    let g = Hasher::verif_new(h.verif_stack(), len, &key, &cv, offset, blocks, &block, block_len, flags);
    a.write(h);
    b.write(g);
}
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hxr_hasher_size() -> usize {
    core::mem::size_of::<Hasher>()
}
/// From the start of a chunk in the middle of a stream: two writes, with an
/// output after each.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hxr_mid(stack: *const [u32; 8], n: usize, key: *const [u32; 8], offset: u64, flags: u32, p: *const u8, lens: *const usize, out: *mut [u8; 32]) {
    let mut s = [[0; 8]; 53];
    s[..n].copy_from_slice(core::slice::from_raw_parts(stack, n));
    let mut h = Hasher::verif_new(&s, n as u64, &*key, &*key, offset, 0, &[0; 64], 0, flags);
    feed(&mut h, p, lens, 1);
    h.finalize(&mut *out);
    feed(&mut h, p.add(*lens), lens.add(1), 1);
    h.finalize(&mut *out.add(1));
}
