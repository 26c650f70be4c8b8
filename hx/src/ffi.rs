//! The Rust bindings of the C implementation (feature `ffi`).
use baokeshed::{c, c64};

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_sizes(o: *mut [u64; 4]) {
    *o = [
        core::mem::size_of::<c::Hasher>() as u64,
        core::mem::align_of::<c::Hasher>() as u64,
        core::mem::size_of::<c::ChunkState>() as u64,
        core::mem::align_of::<c::ChunkState>() as u64,
    ];
}
/// Positions and sizes of the fields as the Rust bindings declare them.
#[cfg(baokeshed_verif)]
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_fields(o: *mut [u64; 20]) {
    *o = c::verif_layout();
}
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hasher(key: *const [u8; 32], flags: u8, p: *const u8, lens: *const usize, k: usize, out: *mut [u8; 32]) {
    let mut h = c::Hasher::new(&*key, flags);
    let mut at = 0;
    for i in 0..k {
        let n = *lens.add(i);
        h.update(core::slice::from_raw_parts(p.add(at), n));
        at += n;
    }
    *out = h.finalize();
}
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_init(h: *mut c::Hasher, key: *const [u8; 32], flags: u8) {
    c::ffi::hasher_init(h, key as *const u8, flags);
}
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_update(h: *mut c::Hasher, p: *const u8, n: usize) {
    (*h).update(core::slice::from_raw_parts(p, n));
}
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_finalize(h: *const c::Hasher, out: *mut [u8; 32]) {
    *out = (*h).finalize();
}
/// Two writes and what finalizing gives after each.
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_step(h: *mut c::Hasher, p: *const u8, lens: *const usize, out: *mut [u8; 32]) {
    hx_ffi_update(h, p, *lens);
    hx_ffi_finalize(h, out);
    hx_ffi_update(h, p.add(*lens), *lens.add(1));
    hx_ffi_finalize(h, out.add(1));
}
#[no_mangle]
pub unsafe extern "C" fn hx_ffi_chunk(h: *mut c::ChunkState, key: *const u32, flags: u8, p: *const u8, n: usize, root: u8, out: *mut u8) {
    c::ffi::chunk_state_init(h, key, flags);
    c::ffi::chunk_state_update(h, p, n);
    c::ffi::chunk_state_finalize(h, root != 0, out);
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_compress_portable(s: *mut u32, b: *const u8, l: u8, o: u64, f: u8) {
    c::ffi::compress_portable(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_compress_sse41(s: *mut u32, b: *const u8, l: u8, o: u64, f: u8) {
    c::ffi::compress_sse41(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_compress_avx512(s: *mut u32, b: *const u8, l: u8, o: u64, f: u8) {
    c::ffi::compress_avx512(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_compress_portable(s: *mut u64, b: *const u8, l: u8, o: u64, f: u8) {
    c64::ffi::baokeshed64_compress_portable(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_compress_avx2(s: *mut u64, b: *const u8, l: u8, o: u64, f: u8) {
    c64::ffi::baokeshed64_compress_avx2(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_compress_avx512(s: *mut u64, b: *const u8, l: u8, o: u64, f: u8) {
    c64::ffi::baokeshed64_compress_avx512(s, b, l, o, f)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash4_sse41(i: *const *const u8, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash4_sse41(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash4_avx512(i: *const *const u8, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash4_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash8_avx2(i: *const *const u8, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash8_avx2(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash8_avx512(i: *const *const u8, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash8_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash16_avx512(i: *const *const u8, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash16_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash_many_portable(i: *const *const u8, num: usize, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash_many_portable(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash_many_sse41(i: *const *const u8, num: usize, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash_many_sse41(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash_many_avx2(i: *const *const u8, num: usize, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash_many_avx2(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_hash_many_avx512(i: *const *const u8, num: usize, blocks: usize, key: *const u32, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c::ffi::hash_many_avx512(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash2_sse41(i: *const *const u8, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash2_sse41(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash2_avx512(i: *const *const u8, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash2_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash4_avx2(i: *const *const u8, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash4_avx2(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash4_avx512(i: *const *const u8, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash4_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash8_avx512(i: *const *const u8, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash8_avx512(i, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash_many_portable(i: *const *const u8, num: usize, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash_many_portable(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash_many_sse41(i: *const *const u8, num: usize, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash_many_sse41(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash_many_avx2(i: *const *const u8, num: usize, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash_many_avx2(i, num, blocks, key, o, d, f, fs, fe, out)
}

#[no_mangle]
pub unsafe extern "C" fn hx_ffi_baokeshed64_hash_many_avx512(i: *const *const u8, num: usize, blocks: usize, key: *const u64, o: u64, d: *const u64, f: u8, fs: u8, fe: u8, out: *mut u8) {
    c64::ffi::baokeshed64_hash_many_avx512(i, num, blocks, key, o, d, f, fs, fe, out)
}
