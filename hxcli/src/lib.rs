//! The command-line tool's own source compiled against a modelled
//! environment: its main function and everything it calls are the real code,
//! while the operating system, the argument parser, memory mapping, error
//! boxing, hex decoding and the hashing library are small models whose
//! behaviour comes from ENV (symbolic) and which record what they are asked.
#![allow(dead_code, static_mut_refs, unused_imports, unused_macros, clippy::all)]

/// What the environment does.
#[repr(C)]
pub struct Env {
    /// 0 none, 1 --key, 2 --derive-key
    key_opt: u64,
    /// decoding the key succeeds, and with how many bytes
    key_ok: u64,
    key_len: u64,
    key: *const u8,
    has_length: u64,
    length: u64,
    /// number of path arguments
    n: u64,
    inp: [Inp; 3],
    /// 192 bytes of stream for each output
    stream: [*const u8; 4],
}
#[repr(C)]
pub struct Inp {
    /// the argument is "-"
    dash: u64,
    open_err: u64,
    stat_err: u64,
    is_file: u64,
    meta_len: u64,
    map_err: u64,
    map: *const u8,
    /// what reading gives: sizes of reads, then end of file or an error
    data: *const u8,
    reads: [u64; 3],
    nreads: u64,
    read_err: u64,
}
#[repr(C)]
pub struct Log {
    n_out: u64,
    out: [u8; 2048],
    n_rec: u64,
    rec: [Rec; 4],
    exit: u64,
    reads: u64,
}
#[repr(C)]
pub struct Rec {
    mode: u64,
    key: [u8; 32],
    ptr: *const u8,
    len: u64,
    n: u64,
    data: [u8; 32],
    done: u64,
}

pub static mut ENV: *const Env = 0 as *const Env;
pub static mut LOG: *mut Log = 0 as *mut Log;
static mut POS: [u64; 4] = [0; 4];

extern "C" {
    /// The same number, made concrete.
    fn hxm_pin(x: u64) -> u64;
    /// Called before each read of output; returns the pointer to use instead
    /// of `stream` (or `stream` itself).
    fn hxm_read(id: u64, pos: u64, buf: *mut u8, stream: *const u8);
    fn hxm_exit(code: u64) -> !;
    /// Does this point into a memory mapping?
    fn hxm_ismap(p: *const u8) -> u64;
}
pub fn env() -> &'static Env {
    unsafe { &*ENV }
}
pub fn log() -> &'static mut Log {
    unsafe { &mut *LOG }
}
#[inline(never)]
pub fn sink(s: &[u8]) {
    let n = unsafe { hxm_pin(s.len() as u64) } as usize;
    let l = log();
    let mut i = 0;
    while i < n {
        unsafe { l.out[l.n_out as usize] = *s.as_ptr().add(i) };
        l.n_out += 1;
        i += 1;
    }
}
/// Interprets format arguments (the representation documented in
/// core::fmt of the pinned compiler); values format themselves into a
/// Formatter whose core entry points the executor hands to hxm_text.
#[inline(never)]
pub fn print(a: &::std::fmt::Arguments) {
    unsafe {
        let w = a as *const _ as *const *const u8;
        let (mut t, args) = (*w, *w.add(1));
        if args as usize & 1 == 1 {
            sink(::std::slice::from_raw_parts(t, args as usize >> 1));
            return;
        }
        let args = args as *const (*const u8, fn(*const u8, *mut u8) -> bool);
        let mut next = 0;
        loop {
            let b = *t;
            t = t.add(1);
            if b == 0 {
                return;
            }
            if b < 0x80 {
                sink(::std::slice::from_raw_parts(t, b as usize));
                t = t.add(b as usize);
            } else if b == 0x80 {
                let n = *t as usize | (*t.add(1) as usize) << 8;
                t = t.add(2);
                sink(::std::slice::from_raw_parts(t, n));
                t = t.add(n);
            } else {
                // the options are not modelled beyond "none"
                assert!(b == 0xc0 || b == 0xc8);
                if b == 0xc8 {
                    next = *t as usize | (*t.add(1) as usize) << 8;
                    t = t.add(2);
                }
                let (v, f) = *args.add(next);
                next += 1;
                let mut fake = [0u64; 4];
                f(v, fake.as_mut_ptr() as *mut u8);
            }
        }
    }
}
/// Text given to a Formatter.
#[no_mangle]
pub unsafe extern "C" fn hxm_text(p: *const u8, n: usize) -> bool {
    sink(::std::slice::from_raw_parts(p, n));
    false
}
/// A number or other value whose text does not matter.
#[no_mangle]
pub unsafe extern "C" fn hxm_thing() -> bool {
    sink(b"#");
    false
}

macro_rules! print { ($($t:tt)*) => { crate::print(&::std::format_args!($($t)*)) } }
macro_rules! println {
    () => { crate::sink(b"\n") };
    ($($t:tt)*) => { { crate::print(&::std::format_args!($($t)*)); crate::sink(b"\n") } }
}
macro_rules! eprint { ($($t:tt)*) => { { let _ = ::std::format_args!($($t)*); } } }
macro_rules! eprintln { ($($t:tt)*) => { { let _ = ::std::format_args!($($t)*); } } }

pub mod model {
    use super::*;
    pub fn err() -> ::std::io::Error {
        ::std::io::ErrorKind::Other.into()
    }

    // ---- paths and files ----
    #[repr(transparent)]
    pub struct Path(str);
    impl Path {
        pub fn new<S: AsRef<str> + ?Sized>(s: &S) -> &Path {
            unsafe { &*(s.as_ref() as *const str as *const Path) }
        }
        pub fn to_string_lossy(&self) -> ::std::borrow::Cow<'_, str> {
            ::std::borrow::Cow::Borrowed(&self.0)
        }
        pub fn to_str(&self) -> Option<&str> {
            Some(&self.0)
        }
        pub fn display(&self) -> &str {
            &self.0
        }
        pub fn to_path_buf(&self) -> PathBuf {
            PathBuf(text(&self.0))
        }
        pub fn as_os_str(&self) -> &str {
            &self.0
        }
    }
    pub fn text(s: &str) -> String {
        let mut v = Vec::with_capacity(s.len());
        v.extend_from_slice(s.as_bytes());
        unsafe { String::from_utf8_unchecked(v) }
    }
    fn same(a: &str, b: &str) -> bool {
        let (a, b) = (a.as_bytes(), b.as_bytes());
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            if a[i] != b[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    impl PartialEq for Path {
        fn eq(&self, o: &Path) -> bool {
            same(&self.0, &o.0)
        }
    }
    impl PartialEq<str> for Path {
        fn eq(&self, o: &str) -> bool {
            same(&self.0, o)
        }
    }
    impl AsRef<Path> for Path {
        fn as_ref(&self) -> &Path {
            self
        }
    }
    impl AsRef<Path> for str {
        fn as_ref(&self) -> &Path {
            Path::new(self)
        }
    }
    impl ::std::fmt::Debug for Path {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    pub struct PathBuf(pub String);
    impl Clone for PathBuf {
        fn clone(&self) -> PathBuf {
            PathBuf(text(&self.0))
        }
    }
    impl PathBuf {
        pub fn as_path(&self) -> &Path {
            Path::new(self.0.as_str())
        }
    }
    impl PartialEq for PathBuf {
        fn eq(&self, o: &PathBuf) -> bool {
            same(&self.0, &o.0)
        }
    }
    impl PartialEq<Path> for PathBuf {
        fn eq(&self, o: &Path) -> bool {
            same(&self.0, &o.0)
        }
    }
    impl ::std::ops::Deref for PathBuf {
        type Target = Path;
        fn deref(&self) -> &Path {
            self.as_path()
        }
    }
    impl AsRef<Path> for PathBuf {
        fn as_ref(&self) -> &Path {
            self.as_path()
        }
    }
    impl From<&str> for PathBuf {
        fn from(s: &str) -> PathBuf {
            PathBuf(text(s))
        }
    }
    impl ::std::fmt::Debug for PathBuf {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    impl<'de> ::serde::Deserialize<'de> for PathBuf {
        fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d).map(PathBuf)
        }
    }

    /// Reading input `i`.
    fn rd(i: usize, at: &mut (u64, u64), buf: &mut [u8]) -> ::std::io::Result<usize> {
        let e = &env().inp[i];
        if at.0 >= e.nreads {
            if e.read_err != 0 {
                return Err(err());
            }
            return Ok(0);
        }
        if buf.len() == 0 {
            return Ok(0);
        }
        let mut n = e.reads[at.0 as usize];
        // the rest of a piece that does not fit comes with the next call
        let off = at.1 >> 32;
        n -= off;
        let start = at.1 & 0xffff_ffff;
        let m = if n > buf.len() as u64 { buf.len() as u64 } else { n };
        let mut k = 0;
        while k < m {
            buf[k as usize] = unsafe { *e.data.add((start + k) as usize) };
            k += 1;
        }
        at.1 = start + m;
        if m == n {
            at.0 += 1;
        } else {
            at.1 |= (off + m) << 32;
        }
        Ok(m as usize)
    }
    pub struct File {
        i: usize,
        at: (u64, u64),
    }
    fn find<P: AsRef<Path> + ?Sized>(p: &P) -> usize {
        match p.as_ref().0.as_bytes()[0] {
            b'a' => 0,
            b'b' => 1,
            b'c' => 2,
            _ => 3,
        }
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> ::std::io::Result<File> {
            let i = find(&p);
            // a file named "-"
            if i == 3 || env().inp[i].open_err != 0 {
                return Err(err());
            }
            Ok(File { i, at: (0, 0) })
        }
        pub fn metadata(&self) -> ::std::io::Result<Metadata> {
            meta(self.i)
        }
        pub fn try_clone(&self) -> ::std::io::Result<File> {
            Ok(File { i: self.i, at: self.at })
        }
    }
    pub fn meta(i: usize) -> ::std::io::Result<Metadata> {
        let e = &env().inp[i];
        if e.stat_err != 0 {
            return Err(err());
        }
        Ok(Metadata { file: e.is_file != 0, len: e.meta_len })
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> ::std::io::Result<Metadata> {
        let i = find(&p);
        if i == 3 || env().inp[i].open_err != 0 {
            return Err(err());
        }
        meta(i)
    }
    #[derive(Clone)]
    pub struct Metadata {
        file: bool,
        len: u64,
    }
    impl Metadata {
        pub fn is_file(&self) -> bool {
            self.file
        }
        pub fn file_type(&self) -> Metadata {
            self.clone()
        }
        pub fn len(&self) -> u64 {
            self.len
        }
    }
    impl ::std::io::Read for File {
        fn read(&mut self, buf: &mut [u8]) -> ::std::io::Result<usize> {
            rd(self.i, &mut self.at, buf)
        }
    }
    impl<'a> ::std::io::Read for &'a File {
        fn read(&mut self, _: &mut [u8]) -> ::std::io::Result<usize> {
            unimplemented!()
        }
    }
    static mut STDIN: (u64, u64) = (0, 0);
    pub struct Stdin;
    impl Stdin {
        pub fn lock(&self) -> Stdin {
            Stdin
        }
    }
    pub fn stdin() -> Stdin {
        Stdin
    }
    impl ::std::io::Read for Stdin {
        fn read(&mut self, buf: &mut [u8]) -> ::std::io::Result<usize> {
            let e = env();
            let mut i = 0;
            // without arguments standard input is input 0, else the one named "-"
            while i + 1 < e.n && e.inp[i as usize].dash == 0 {
                i += 1;
            }
            rd(i as usize, unsafe { &mut STDIN }, buf)
        }
    }
    pub struct Stdout;
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl ::std::io::Write for Stdout {
        fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
            sink(b);
            Ok(b.len())
        }
        fn write_all(&mut self, b: &[u8]) -> ::std::io::Result<()> {
            sink(b);
            Ok(())
        }
        fn write_fmt(&mut self, a: ::std::fmt::Arguments) -> ::std::io::Result<()> {
            print(&a);
            Ok(())
        }
        fn flush(&mut self) -> ::std::io::Result<()> {
            Ok(())
        }
    }

    // ---- memory mapping ----
    pub struct Mmap(*const u8, usize);
    pub struct MmapOptions {
        off: u64,
        len: Option<usize>,
    }
    impl MmapOptions {
        pub fn new() -> MmapOptions {
            MmapOptions { off: 0, len: None }
        }
        pub fn offset(&mut self, o: u64) -> &mut Self {
            self.off = o;
            self
        }
        pub fn len(&mut self, n: usize) -> &mut Self {
            self.len = Some(n);
            self
        }
        pub unsafe fn map(&self, f: &File) -> ::std::io::Result<Mmap> {
            let e = &env().inp[f.i];
            // files without a length, special files and some file systems
            // cannot be mapped, nor can too large or empty ranges
            let len = match self.len {
                Some(n) => n,
                None => {
                    if self.off > e.meta_len {
                        return Err(err());
                    }
                    (e.meta_len - self.off) as usize
                }
            };
            if e.map_err != 0 || e.is_file == 0 || len == 0 || len > isize::max_value() as usize {
                return Err(err());
            }
            Ok(Mmap(e.map.wrapping_add(self.off as usize), len))
        }
    }
    impl Mmap {
        pub unsafe fn map(f: &File) -> ::std::io::Result<Mmap> {
            MmapOptions::new().map(f)
        }
    }
    impl ::std::ops::Deref for Mmap {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            unsafe { ::std::slice::from_raw_parts(self.0, self.1) }
        }
    }
    impl AsRef<[u8]> for Mmap {
        fn as_ref(&self) -> &[u8] {
            &*self
        }
    }

    // ---- hex: decoding gives what ENV says, encoding is the definition ----
    pub struct FromHexError;
    impl ::std::fmt::Debug for FromHexError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    impl ::std::fmt::Display for FromHexError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    impl ::std::error::Error for FromHexError {}
    pub fn decode<T: AsRef<[u8]>>(_: T) -> Result<Vec<u8>, FromHexError> {
        let e = env();
        if e.key_ok == 0 {
            return Err(FromHexError);
        }
        let n = e.key_len as usize;
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(unsafe { *e.key.add(i) });
            i += 1;
        }
        Ok(v)
    }
    pub fn decode_to_slice<T: AsRef<[u8]>>(_: T, out: &mut [u8]) -> Result<(), FromHexError> {
        let e = env();
        let n = e.key_len as usize;
        if e.key_ok == 0 || n != out.len() {
            return Err(FromHexError);
        }
        let mut i = 0;
        while i < n {
            out[i] = unsafe { *e.key.add(i) };
            i += 1;
        }
        Ok(())
    }
    pub fn encode<T: AsRef<[u8]>>(x: T) -> String {
        let x = x.as_ref();
        let n = unsafe { hxm_pin(x.len() as u64) } as usize;
        let mut v = Vec::with_capacity(2 * n);
        let mut i = 0;
        while i < n {
            let b = unsafe { *x.as_ptr().add(i) };
            v.push(b"0123456789abcdef"[(b >> 4) as usize]);
            v.push(b"0123456789abcdef"[(b & 15) as usize]);
            i += 1;
        }
        unsafe { String::from_utf8_unchecked(v) }
    }

    // ---- the library ----
    #[derive(Clone)]
    pub struct Output {
        id: usize,
        pos: u64,
    }
    impl Output {
        pub fn read(&mut self) -> [u8; 64] {
            let mut b = ::std::mem::MaybeUninit::<[u8; 64]>::uninit();
            unsafe { hxm_read(self.id as u64, self.pos, b.as_mut_ptr() as *mut u8, env().stream[self.id]) };
            self.pos = self.pos.wrapping_add(64);
            unsafe { b.assume_init() }
        }
        pub fn to_hash(mut self) -> ::baokeshed::Hash {
            let b = self.read();
            let mut h = [0; 32];
            h.copy_from_slice(&b[..32]);
            h.into()
        }
    }
    fn rec(mode: u64, key: Option<&[u8; 32]>) -> usize {
        let l = log();
        let i = l.n_rec as usize;
        l.n_rec += 1;
        l.rec[i].mode = mode;
        if let Some(k) = key {
            l.rec[i].key = *k;
        }
        i
    }
    fn whole(mode: u64, key: Option<&[u8; 32]>, x: &[u8]) -> Output {
        let id = rec(mode, key);
        let r = &mut log().rec[id];
        r.ptr = x.as_ptr();
        r.len = x.len() as u64;
        r.done = 1;
        if unsafe { hxm_ismap(x.as_ptr()) } == 0 {
            let n = unsafe { hxm_pin(x.len() as u64) };
            while r.n < n {
                r.data[r.n as usize] = unsafe { *x.as_ptr().add(r.n as usize) };
                r.n += 1;
            }
            r.done = 2;
        }
        Output { id, pos: 0 }
    }
    pub fn hash_xof(x: &[u8]) -> Output {
        whole(0, None, x)
    }
    pub fn keyed_hash_xof(k: &[u8; 32], x: &[u8]) -> Output {
        whole(1, Some(k), x)
    }
    pub fn derive_key_xof(k: &[u8; 32], x: &[u8]) -> Output {
        whole(2, Some(k), x)
    }
    pub fn hash(x: &[u8]) -> ::baokeshed::Hash {
        hash_xof(x).to_hash()
    }
    pub fn keyed_hash(k: &[u8; 32], x: &[u8]) -> ::baokeshed::Hash {
        keyed_hash_xof(k, x).to_hash()
    }
    pub fn derive_key(k: &[u8; 32], x: &[u8]) -> [u8; 32] {
        derive_key_xof(k, x).to_hash().into()
    }
    /// Every state of a hasher is one record: a copy is not modelled.
    pub struct Hasher {
        id: usize,
    }
    impl Hasher {
        pub fn new() -> Hasher {
            Hasher { id: rec(0, None) }
        }
        pub fn new_keyed(k: &[u8; 32]) -> Hasher {
            Hasher { id: rec(1, Some(k)) }
        }
        pub fn new_derive_key(k: &[u8; 32]) -> Hasher {
            Hasher { id: rec(2, Some(k)) }
        }
        pub fn update(&mut self, x: &[u8]) -> &mut Self {
            let r = &mut log().rec[self.id];
            assert!(r.done == 0);
            let n = unsafe { hxm_pin(x.len() as u64) };
            let mut i = 0;
            while i < n {
                r.data[r.n as usize] = unsafe { *x.as_ptr().add(i as usize) };
                r.n += 1;
                i += 1;
            }
            self
        }
        pub fn finalize_xof(&self) -> Output {
            log().rec[self.id].done = 2;
            Output { id: self.id, pos: 0 }
        }
        pub fn finalize(&self) -> ::baokeshed::Hash {
            self.finalize_xof().to_hash()
        }
    }
    impl ::std::io::Write for Hasher {
        fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
            self.update(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> ::std::io::Result<()> {
            Ok(())
        }
    }

    // ---- errors ----
    pub struct AnyError;
    impl<E: ::std::error::Error + Send + Sync + 'static> From<E> for AnyError {
        fn from(_: E) -> AnyError {
            AnyError
        }
    }
    impl ::std::fmt::Display for AnyError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            sink(b"error");
            Ok(())
        }
    }
    impl ::std::fmt::Debug for AnyError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            sink(b"error");
            Ok(())
        }
    }
    impl AnyError {
        pub fn msg<M>(_: M) -> AnyError {
            AnyError
        }
    }
    pub trait Context<T> {
        fn context<C>(self, c: C) -> Result<T, AnyError>;
        fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T, AnyError>;
    }
    impl<T, E> Context<T> for Result<T, E> {
        fn context<C>(self, _: C) -> Result<T, AnyError> {
            self.map_err(|_| AnyError)
        }
        fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T, AnyError> {
            self.map_err(|_| AnyError)
        }
    }
    impl<T> Context<T> for Option<T> {
        fn context<C>(self, _: C) -> Result<T, AnyError> {
            self.ok_or(AnyError)
        }
        fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T, AnyError> {
            self.ok_or(AnyError)
        }
    }

    // ---- argument parsing: gives the options of ENV to whatever
    // structure the program deserializes into ----
    pub struct DocError;
    impl DocError {
        pub fn exit(&self) -> ! {
            unsafe { hxm_exit(1) }
        }
    }
    impl ::std::fmt::Debug for DocError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    impl ::std::fmt::Display for DocError {
        fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            Ok(())
        }
    }
    impl ::std::error::Error for DocError {}
    impl ::serde::de::Error for DocError {
        fn custom<T: ::std::fmt::Display>(_: T) -> Self {
            DocError
        }
    }
    pub struct Docopt;
    impl Docopt {
        pub fn new<S>(_usage: S) -> Result<Docopt, DocError> {
            Ok(Docopt)
        }
        pub fn deserialize<T: ::serde::de::DeserializeOwned>(&self) -> Result<T, DocError> {
            T::deserialize(Top)
        }
    }
    const NAMES: [&str; 6] =
        ["arg_inputs", "flag_help", "flag_key", "flag_derive_key", "flag_length", "flag_version"];
    struct Top;
    impl<'de> ::serde::Deserializer<'de> for Top {
        type Error = DocError;
        fn deserialize_any<V: ::serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, DocError> {
            v.visit_map(Fields(0))
        }
        ::serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
            bytes byte_buf option unit unit_struct newtype_struct seq tuple
            tuple_struct map struct enum identifier ignored_any
        }
    }
    struct Fields(usize);
    impl<'de> ::serde::de::MapAccess<'de> for Fields {
        type Error = DocError;
        fn next_key_seed<K: ::serde::de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, DocError> {
            if self.0 >= 6 {
                return Ok(None);
            }
            s.deserialize(Val::Str(NAMES[self.0])).map(Some)
        }
        fn next_value_seed<K: ::serde::de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<K::Value, DocError> {
            let e = env();
            let i = self.0;
            self.0 += 1;
            s.deserialize(match i {
                0 => Val::Seq,
                1 | 5 => Val::Bool,
                2 => {
                    if e.key_opt == 1 {
                        Val::Some(&"key")
                    } else {
                        Val::None
                    }
                }
                3 => {
                    if e.key_opt == 2 {
                        Val::Some(&"key")
                    } else {
                        Val::None
                    }
                }
                _ => {
                    if e.has_length != 0 {
                        Val::SomeNum(e.length)
                    } else {
                        Val::None
                    }
                }
            })
        }
    }
    enum Val {
        Str(&'static str),
        Seq,
        Bool,
        None,
        Some(&'static &'static str),
        SomeNum(u64),
        Num(u64),
    }
    impl<'de> ::serde::Deserializer<'de> for Val {
        type Error = DocError;
        fn deserialize_any<V: ::serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, DocError> {
            match self {
                Val::Str(s) => v.visit_str(s),
                Val::Seq => v.visit_seq(Inputs(0)),
                Val::Bool => v.visit_bool(false),
                Val::None => v.visit_none(),
                Val::Some(s) => v.visit_some(Val::Str(*s)),
                Val::SomeNum(n) => v.visit_some(Val::Num(n)),
                Val::Num(n) => v.visit_u64(n),
            }
        }
        fn deserialize_string<V: ::serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, DocError> {
            match self {
                Val::Str(s) => v.visit_string(text(s)),
                _ => unimplemented!(),
            }
        }
        ::serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
            bytes byte_buf option unit unit_struct newtype_struct seq tuple
            tuple_struct map struct enum identifier ignored_any
        }
    }
    struct Inputs(u64);
    impl<'de> ::serde::de::SeqAccess<'de> for Inputs {
        type Error = DocError;
        fn next_element_seed<K: ::serde::de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, DocError> {
            let e = env();
            if self.0 >= e.n {
                return Ok(None);
            }
            let i = self.0 as usize;
            self.0 += 1;
            s.deserialize(Val::Str(if e.inp[i].dash != 0 { "-" } else { ["a", "b", "c"][i] })).map(Some)
        }
    }
}

mod cli {
    /// The names the program uses, with the models in place of what they
    /// stand for.
    pub mod std {
        pub use ::std::*;
        pub mod fs {
            pub use crate::model::{metadata, File, Metadata};
            pub use ::std::fs::*;
        }
        pub mod path {
            pub use crate::model::{Path, PathBuf};
            pub use ::std::path::*;
        }
        pub mod io {
            pub use crate::model::{stdin, stdout, Stdin, Stdout};
            pub use ::std::io::*;
        }
        pub mod process {
            pub use ::std::process::*;
            pub fn exit(c: i32) -> ! {
                unsafe { crate::hxm_exit(c as u64) }
            }
        }
    }
    pub mod memmap {
        pub use crate::model::{Mmap, MmapOptions};
    }
    pub mod hex {
        pub use crate::model::{decode, decode_to_slice, encode, FromHexError};
    }
    pub mod docopt {
        pub use crate::model::{DocError as Error, Docopt};
    }
    pub mod anyhow {
        pub use crate::model::{AnyError as Error, Context};
        pub type Result<T, E = Error> = ::std::result::Result<T, E>;
        macro_rules! bail { ($($t:tt)*) => { return ::std::result::Result::Err(crate::model::AnyError) } }
        macro_rules! anyhow { ($($t:tt)*) => { crate::model::AnyError } }
        macro_rules! ensure { ($c:expr $(, $($t:tt)*)?) => { if !$c { return ::std::result::Result::Err(crate::model::AnyError) } } }
        pub(crate) use {anyhow, bail, ensure};
    }
    pub mod baokeshed {
        pub use crate::model::{
            derive_key, derive_key_xof, hash, hash_xof, keyed_hash, keyed_hash_xof, Hasher, Output,
        };
        pub use ::baokeshed::*;
    }
    include!("/repo/baokeshed_bin/src/main.rs");
    pub fn hxcli_run_main() -> bool {
        main().is_ok()
    }
}

#[no_mangle]
pub unsafe extern "C" fn hxcli_main(e: *const Env, l: *mut Log) {
    ENV = e;
    LOG = l;
    if !cli::hxcli_run_main() {
        (*l).exit = 1;
    }
}
