//! copy_wide between a reader and a writer whose results come from outside,
//! and the Write interface of the hasher.
use baokeshed::Hasher;
use std::io::{self, ErrorKind, Write};

extern "C" {
    /// Fills buf[..r] and returns r, or -1 - k for an error of kind KINDS[k].
    fn vx_read(buf: *mut u8, cap: usize) -> isize;
    /// Accepts buf[..r] and returns r, or -1 - k.
    fn vx_write(buf: *const u8, n: usize) -> isize;
    fn vx_flush();
}
static KINDS: [ErrorKind; 20] = [ErrorKind::Interrupted, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other];
fn kind(r: isize) -> ErrorKind {
    KINDS[(-1 - r) as usize]
}
struct Rd;
struct Wr;
impl io::Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = unsafe { vx_read(buf.as_mut_ptr(), buf.len()) };
        if r < 0 {
            return Err(kind(r).into());
        }
        Ok(r as usize)
    }
}
impl Write for Wr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let r = unsafe { vx_write(buf.as_ptr(), buf.len()) };
        if r < 0 {
            return Err(kind(r).into());
        }
        Ok(r as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { vx_flush() };
        Ok(())
    }
}
/// 0 and the count, or 1 and the kind of the error.
#[no_mangle]
pub unsafe extern "C" fn hx_copy_wide(out: *mut u64) -> u8 {
    let mut r = Rd;
    let mut w = Wr;
    match baokeshed::copy::copy_wide(&mut r, &mut w) {
        Ok(n) => {
            *out = n;
            0
        }
        Err(e) => {
            *out = e.kind() as u64;
            1
        }
    }
}
/// How the kinds are numbered.
#[no_mangle]
pub unsafe extern "C" fn hx_kinds(out: *mut u64, n: usize) -> usize {
    if n != KINDS.len() {
        return KINDS.len();
    }
    let mut i = 0;
    while i < n {
        *out.add(i) = KINDS[i] as u64;
        i += 1;
    }
    n
}
/// One write and a flush through the Write interface.
#[no_mangle]
pub unsafe extern "C" fn hx_write(h: *mut Hasher, p: *const u8, n: usize) -> usize {
    let r = (*h).write(core::slice::from_raw_parts(p, n));
    let f = (*h).flush();
    match (r, f) {
        (Ok(m), Ok(())) => m,
        _ => !0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn hx_new(h: *mut Hasher) {
    h.write(Hasher::new());
}
#[no_mangle]
pub unsafe extern "C" fn hx_size() -> usize {
    core::mem::size_of::<Hasher>()
}

#[cfg(feature = "native")]
mod native {
    use std::sync::Mutex;
    #[derive(Default)]
    struct Script {
        /// bytes to be moved before the script begins
        pre: u64,
        reads: Vec<i64>,
        writes: Vec<i64>,
        r: usize,
        w: usize,
        rpos: u64,
        wpos: u64,
        good: bool,
        tab: Vec<u8>,
    }
    const P: u64 = 65521;
    const MAX: u64 = 1 << 17;
    static S: Mutex<Option<Script>> = Mutex::new(None);
    #[no_mangle]
    unsafe extern "C" fn vx_read(buf: *mut u8, cap: usize) -> isize {
        let mut g = S.lock().unwrap();
        let s = g.as_mut().unwrap();
        let n = if s.rpos < s.pre {
            (s.pre - s.rpos).min(cap as u64).min(MAX) as usize
        } else {
            let k = s.reads.get(s.r).copied().unwrap_or(0);
            s.r += 1;
            if k < 0 {
                return k as isize;
            }
            (k as usize).min(cap).min(MAX as usize)
        };
        core::ptr::copy_nonoverlapping(s.tab.as_ptr().add((s.rpos % P) as usize), buf, n);
        s.rpos += n as u64;
        n as isize
    }
    #[no_mangle]
    unsafe extern "C" fn vx_write(buf: *const u8, n: usize) -> isize {
        let mut g = S.lock().unwrap();
        let s = g.as_mut().unwrap();
        let m = if s.wpos < s.pre {
            (n as u64).min(s.pre - s.wpos).min(MAX) as usize
        } else {
            let k = s.writes.get(s.w).copied().unwrap_or(i64::MAX);
            s.w += 1;
            if k < 0 {
                return k as isize;
            }
            (n as u64).min(k as u64).min(MAX) as usize
        };
        let a = (s.wpos % P) as usize;
        let b = core::slice::from_raw_parts(buf, m);
        s.wpos += m as u64;
        s.good &= s.wpos <= s.rpos && *b == s.tab[a..a + m];
        m as isize
    }
    #[no_mangle]
    extern "C" fn vx_flush() {}
    /// copy_wide on a script. out: Ok or error, count or kind, bytes read,
    /// bytes written, whether those are the bytes read.
    #[no_mangle]
    pub unsafe extern "C" fn hx_copy_script(pre: u64, reads: *const i64, nr: usize, writes: *const i64, nw: usize, out: *mut [u64; 5]) {
        let mut x = 1u64;
        let mut tab = vec![0; (P + MAX) as usize];
        for i in 0..tab.len() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            tab[i] = if i < P as usize { (x >> 33) as u8 } else { tab[i - P as usize] };
        }
        let s = Script {
            pre,
            reads: core::slice::from_raw_parts(reads, nr).to_vec(),
            writes: core::slice::from_raw_parts(writes, nw).to_vec(),
            good: true,
            tab,
            ..Default::default()
        };
        *S.lock().unwrap() = Some(s);
        let mut n = 0;
        let e = super::hx_copy_wide(&mut n);
        let g = S.lock().unwrap();
        let s = g.as_ref().unwrap();
        *out = [e as u64, n, s.rpos, s.wpos, s.good as u64];
    }
    /// Writing n zero bytes: what write returns, and whether the hash is that
    /// of n zero bytes.
    #[no_mangle]
    pub unsafe extern "C" fn hx_write_zeros(n: usize, out: *mut [u64; 2]) {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        }
        let p = mmap(core::ptr::null_mut(), n.max(1), 1, 0x4022, -1, 0);
        assert!(p as isize != -1);
        let (mut a, mut b) = (baokeshed::Hasher::new(), baokeshed::Hasher::new());
        let r = super::hx_write(&mut a, p, n);
        let mut i = 0;
        while i < n {
            let k = (n - i).min(1 << 26);
            b.update(core::slice::from_raw_parts(p.add(i), k));
            i += k;
        }
        *out = [r as u64, (a.finalize() == b.finalize()) as u64];
    }
}
