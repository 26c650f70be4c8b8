//! Running a concrete call of the real, natively compiled code in a child
//! process, with guard pages around every buffer, and judging its outputs.
use crate::irb;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub enum Arg {
    Int(u64),
    In(Vec<u8>),
    InOut(Vec<u8>),
    Out(usize),
    Ptrs(Vec<Vec<u8>>),
}
#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub lib: String,
    pub func: String,
    pub args: Vec<Arg>,
    /// (argument number or -1 for the return value, expected bytes)
    pub expect: Vec<(i32, Vec<u8>)>,
    /// forced platform (0 none, 1 portable, 2 sse4.1, 3 avx2), other settings
    pub env: Vec<(String, String)>,
    /// byte buffers, which need no alignment
    pub odd: Vec<usize>,
    pub note: String,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

impl Replay {
    pub fn text(&self) -> String {
        let mut t = String::new();
        for l in self.note.lines() {
            t.push_str(&format!("# {}\n", l));
        }
        t.push_str(&format!("lib {}\nfunc {}\n", self.lib, self.func));
        for (k, v) in &self.env {
            t.push_str(&format!("env {} {}\n", k, v));
        }
        for a in &self.args {
            t.push_str(&match a {
                Arg::Int(x) => format!("int {}\n", x),
                Arg::In(b) => format!("in {}\n", hex(b)),
                Arg::InOut(b) => format!("inout {}\n", hex(b)),
                Arg::Out(n) => format!("out {}\n", n),
                Arg::Ptrs(v) => format!("ptrs {}\n", v.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ")),
            });
        }
        for i in &self.odd {
            t.push_str(&format!("odd {}\n", i));
        }
        for (i, b) in &self.expect {
            t.push_str(&format!("expect {} {}\n", i, hex(b)));
        }
        t
    }
    pub fn parse(t: &str) -> Replay {
        let mut r = Replay::default();
        for l in t.lines() {
            let mut p = l.splitn(2, ' ');
            let k = p.next().unwrap_or("");
            let v = p.next().unwrap_or("");
            match k {
                "lib" => r.lib = v.into(),
                "func" => r.func = v.into(),
                "env" => {
                    if let Some((a, b)) = v.split_once(' ') {
                        r.env.push((a.into(), b.into()))
                    }
                }
                "int" => r.args.push(Arg::Int(v.parse().unwrap_or(0))),
                "in" => r.args.push(Arg::In(unhex(v))),
                "inout" => r.args.push(Arg::InOut(unhex(v))),
                "odd" => r.odd.push(v.parse().unwrap_or(0)),
                "out" => r.args.push(Arg::Out(v.parse().unwrap_or(0))),
                "ptrs" => r.args.push(Arg::Ptrs(v.split_whitespace().map(unhex).collect())),
                "expect" => {
                    if let Some((a, b)) = v.split_once(' ') {
                        r.expect.push((a.parse().unwrap_or(-1), unhex(b)))
                    }
                }
                "#" => {
                    r.note.push_str(v);
                    r.note.push('\n');
                }
                _ => {}
            }
        }
        r
    }
}

extern "C" {
    fn dlopen(f: *const i8, fl: i32) -> *mut u8;
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
    fn dlerror() -> *const i8;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}

unsafe fn guarded(len: usize, end: bool, slack: usize) -> *mut u8 {
    let pages = (len + slack + 4095) / 4096 + 2;
    let p = mmap(std::ptr::null_mut(), pages * 4096, 3, 0x22, -1, 0);
    mprotect(p, 4096, 0);
    mprotect(p.add((pages - 1) * 4096), 4096, 0);
    if end {
        p.add((pages - 1) * 4096 - len - slack)
    } else {
        p.add(4096 + slack)
    }
}

/// Crate disambiguators out of a v0-mangled name.
pub fn plain(n: &str) -> String {
    let mut o = String::new();
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"Cs") {
            if let Some(e) = n[i..].find('_') {
                if e < 16 && n[i + 2..i + e].bytes().all(|x| x.is_ascii_alphanumeric()) {
                    o.push('C');
                    i += e + 1;
                    continue;
                }
            }
        }
        o.push(b[i] as char);
        i += 1;
    }
    o
}
/// (name, value) of every symbol in an ELF file.
fn symbols(so: &str) -> Vec<(String, u64)> {
    let b = std::fs::read(so).unwrap_or_default();
    let g = |o: usize, n: usize| -> u64 { (0..n).fold(0, |a, i| a | (*b.get(o + i).unwrap_or(&0) as u64) << (8 * i)) };
    let (sh, num) = (g(0x28, 8) as usize, g(0x3c, 2) as usize);
    let mut v = vec![];
    for i in 0..num {
        let s = sh + 64 * i;
        if g(s + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (g(s + 24, 8) as usize, g(s + 32, 8) as usize, g(s + 40, 4) as usize);
        let st = g(sh + 64 * link + 24, 8) as usize;
        for k in 0..size / 24 {
            let e = off + 24 * k;
            let n = st + g(e, 4) as usize;
            let end = b[n..].iter().position(|x| *x == 0).unwrap_or(0);
            v.push((String::from_utf8_lossy(&b[n..n + end]).into_owned(), g(e + 8, 8)));
        }
    }
    v
}
extern "C" fn on_trap(_: i32) {
    eprintln!("code for an absent CPU feature was reached");
    std::process::abort();
}
/// VX_CPU: what the standard library's feature detection shall report;
/// VX_TRAP: a function whose execution shall be noticed.
unsafe fn prepare(so: &str, f: *mut u8) {
    #[repr(C)]
    struct Dl {
        a: *const i8,
        base: *mut u8,
        c: *const i8,
        d: *mut u8,
    }
    extern "C" {
        fn dladdr(p: *mut u8, d: *mut Dl) -> i32;
        fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
    }
    let (cpu, trap) = (std::env::var("VX_CPU"), std::env::var("VX_TRAP"));
    if cpu.is_err() && trap.is_err() {
        return;
    }
    let mut d: Dl = std::mem::zeroed();
    dladdr(f, &mut d);
    let sy = symbols(so);
    if let Ok(m) = cpu {
        let m: u128 = m.parse().unwrap();
        let c = sy.iter().find(|x| x.0.contains("std_detect6detect5cache5CACHE"));
        match c {
            Some((_, v)) => {
                let p = d.base.add(*v as usize) as *mut u64;
                for i in 0..2 {
                    *p.add(i) = (m >> (63 * i)) as u64 | 1 << 63;
                }
            }
            None => {
                eprintln!("no feature cache");
                std::process::exit(97)
            }
        }
    }
    if let Ok(t) = trap {
        let t = plain(&t);
        signal(5, on_trap);
        let mut any = false;
        for (n, v) in sy {
            if plain(&n) == t {
                let p = d.base.add(v as usize);
                let page = (p as usize & !4095) as *mut u8;
                mprotect(page, 8192, 7);
                *p = 0xcc;
                any = true;
            }
        }
        if !any {
            eprintln!("no function {}", t);
            std::process::exit(97)
        }
    }
}

/// Calls the function with each half of the arguments and compares the blocks
/// executed and addresses touched.
unsafe fn trace(r: &Replay, f: *mut u8, n: usize) -> ! {
    let g = |s: &[u8]| {
        let p = dlsym(std::ptr::null_mut(), s.as_ptr() as _);
        if p.is_null() {
            eprintln!("no recording functions");
            std::process::exit(97)
        }
        p
    };
    let start: unsafe extern "C" fn() = std::mem::transmute(g(b"vx_ct_start\0"));
    let stop: unsafe extern "C" fn(*mut u64) -> *mut u64 = std::mem::transmute(g(b"vx_ct_stop\0"));
    type F = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64;
    let f: F = std::mem::transmute(f);
    let mut bufs: Vec<Vec<*mut u8>> = vec![];
    let mut a = [0u64; 12];
    for (i, x) in r.args[..n].iter().enumerate() {
        let sizes: Vec<usize> = match x {
            Arg::Int(_) => vec![],
            Arg::In(b) | Arg::InOut(b) => vec![b.len()],
            Arg::Out(n) => vec![*n],
            Arg::Ptrs(v) => std::iter::once(8 * v.len()).chain(v.iter().map(|x| x.len())).collect(),
        };
        bufs.push(sizes.iter().map(|s| guarded(*s, false, 0)).collect());
        if let Some(p) = bufs[i].first() {
            a[i] = *p as u64;
        }
    }
    let mut one = |args: &[Arg]| -> (&'static [u64], u64) {
        for (i, x) in args.iter().enumerate() {
            match x {
                Arg::Int(v) => a[i] = *v,
                Arg::In(b) | Arg::InOut(b) => std::ptr::copy_nonoverlapping(b.as_ptr(), bufs[i][0], b.len()),
                Arg::Out(n) => std::ptr::write_bytes(bufs[i][0], 0xcc, *n),
                Arg::Ptrs(v) => {
                    for (j, b) in v.iter().enumerate() {
                        std::ptr::copy_nonoverlapping(b.as_ptr(), bufs[i][j + 1], b.len());
                        *(bufs[i][0] as *mut u64).add(j) = bufs[i][j + 1] as u64;
                    }
                }
            }
        }
        start();
        f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
        let mut k = 0;
        let p = stop(&mut k);
        if k == !0 {
            eprintln!("recording too long");
            std::process::exit(97)
        }
        (std::slice::from_raw_parts(p, k as usize), k)
    };
    // once for what is set up lazily
    one(&r.args[..n]);
    let (x, _) = one(&r.args[..n]);
    let (y, _) = one(&r.args[..n]);
    let (z, _) = one(&r.args[n..]);
    if x != y {
        eprintln!("two runs on one input differ");
        std::process::exit(97)
    }
    if x == z {
        std::process::exit(0)
    }
    let at = x.iter().zip(z).position(|(a, b)| a != b).unwrap_or(x.len().min(z.len()));
    let what = ["block", "load", "store", "copy"];
    let show = |v: &[u64]| v.get(at).map_or("end".to_string(), |e| format!("{} {:#x}", what[*e as usize & 3], e >> 3));
    eprintln!(
        "the same call with other secrets takes {} instead of {} steps and differs at step {}: {} instead of {}",
        z.len(),
        x.len(),
        at,
        show(z),
        show(x)
    );
    std::process::exit(33)
}

/// Body of the child process.
pub fn child(file: &str, so: &str, side: &str) -> ! {
    let end = side == "end";
    let r = Replay::parse(&std::fs::read_to_string(file).unwrap());
    unsafe {
        let p = std::ffi::CString::new(so).unwrap();
        let h = dlopen(p.as_ptr() as _, 1 | 2);
        if h.is_null() {
            eprintln!("dlopen: {:?}", std::ffi::CStr::from_ptr(dlerror() as _));
            std::process::exit(97);
        }
        let n = std::ffi::CString::new(r.func.clone()).unwrap();
        let f = dlsym(h, n.as_ptr() as _);
        if f.is_null() {
            eprintln!("no symbol {}", r.func);
            std::process::exit(97);
        }
        prepare(so, f);
        let mut a: Vec<u64> = vec![];
        if let Ok(n) = std::env::var("VX_CT") {
            trace(&r, f, n.parse().unwrap());
        }
        let mut outs: Vec<(usize, *mut u8, usize)> = vec![];
        for (i, x) in r.args.iter().enumerate() {
            let slack = (side == "odd" && r.odd.contains(&i)) as usize;
            match x {
                Arg::Int(v) => a.push(*v),
                Arg::In(b) | Arg::InOut(b) => {
                    let q = guarded(b.len(), end, slack);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), q, b.len());
                    a.push(q as u64);
                    if let Arg::InOut(_) = x {
                        outs.push((i, q, b.len()));
                    }
                }
                Arg::Out(n) => {
                    let q = guarded(*n, end, slack);
                    std::ptr::write_bytes(q, 0xcc, *n);
                    a.push(q as u64);
                    outs.push((i, q, *n));
                }
                Arg::Ptrs(v) => {
                    let q = guarded(8 * v.len(), end, 0) as *mut u64;
                    for (j, b) in v.iter().enumerate() {
                        let z = guarded(b.len(), end, slack);
                        std::ptr::copy_nonoverlapping(b.as_ptr(), z, b.len());
                        *q.add(j) = z as u64;
                    }
                    a.push(q as u64);
                }
            }
        }
        while a.len() < 12 {
            a.push(0);
        }
        type F = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64;
        let g: F = std::mem::transmute(f);
        let ret = g(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
        println!("-1 {}", hex(&ret.to_le_bytes()));
        for (i, q, n) in outs {
            println!("{} {}", i, hex(std::slice::from_raw_parts(q, n)));
        }
    }
    std::process::exit(0)
}

#[derive(Debug)]
pub enum Outcome {
    /// the real code misbehaves as described
    Confirmed(String),
    Fine,
    Error(String),
}

pub fn build_lib(lib: &str) -> Result<PathBuf, String> {
    if lib == "tool" {
        return crate::cli::build_tool();
    }
    let (lib, how) = match lib.split_once('+') {
        Some((l, "asan")) => (l, irb::How::Asan),
        Some((l, _)) => (l, irb::How::Trace),
        None => (lib, irb::How::Plain),
    };
    if how == irb::How::Trace {
        irb::trace_runtime()?;
    }
    let (a, b) = lib.split_once(':').unwrap_or((lib, ""));
    match a {
        "c" | "cx" => {
            let cc = irb::CCS.iter().find(|c| c.name() == b).ok_or("configuration")?;
            irb::c_native(*cc, if a == "cx" { &["cx/hxc.c"] } else { &[] }, how)
        }
        k => irb::rust_native(k, b, true, how),
    }
}

pub fn run(r: &Replay, file: &Path, so: &Path) -> Outcome {
    if r.lib == "tool" {
        return crate::cli::run_tool(r, so);
    }
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => return Outcome::Error(e.to_string()),
    };
    let ct = r.env.iter().any(|e| e.0 == "VX_CT");
    for side in ["end", "start", "odd"] {
        if side != "end" && ct {
            continue;
        }
        if side == "start" && r.func == "hx_zeros" || side == "odd" && r.odd.is_empty() {
            continue;
        }
        let mut c = std::process::Command::new("timeout");
        let long = r.func == "hx_zeros";
        c.arg(if long { "300" } else { "60" }).arg(&exe).arg("replay-child").arg(file).arg(so).arg(side);
        for (k, v) in &r.env {
            c.env(k, v);
        }
        if ct {
            c.env("LD_PRELOAD", irb::build_dir().join("libct.so"));
        }
        if r.lib.ends_with("+asan") {
            c.env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1");
            if let Some(l) = irb::asan_runtime(&r.lib) {
                c.env("LD_PRELOAD", l);
            }
        }
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => return Outcome::Error(e.to_string()),
        };
        let code = o.status.code();
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        if code == Some(97) {
            return Outcome::Error(err);
        }
        if code == Some(124) && long {
            return Outcome::Fine;
        }
        if code == Some(124) {
            return Outcome::Confirmed("the real code does not terminate within 60 s".into());
        }
        if ct && code == Some(33) {
            return Outcome::Confirmed(err.lines().last().unwrap_or("").to_string());
        }
        if ct && code == Some(0) {
            return Outcome::Fine;
        }
        if ct {
            return Outcome::Error(format!("{} {}", o.status, err));
        }
        if code != Some(0) {
            let last = err.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" | ");
            return Outcome::Confirmed(format!("the real code crashed ({}) {}", o.status, last));
        }
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        for (i, want) in &r.expect {
            let pre = format!("{} ", i);
            let got = out.lines().find_map(|l| l.strip_prefix(&pre)).map(|x| unhex(x.trim())).unwrap_or_default();
            let n = want.len();
            if got.len() < n || got[..n] != want[..] {
                return Outcome::Confirmed(format!(
                    "argument {}: got {} expected {}",
                    i,
                    hex(&got[..got.len().min(64)]),
                    hex(&want[..n.min(64)])
                ));
            }
        }
    }
    Outcome::Fine
}
