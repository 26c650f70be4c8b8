//! Building compiler IR and native libraries from the current source tree.
use crate::ir::Program;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn root() -> PathBuf {
    if let Ok(v) = std::env::var("VERIF_DIR") {
        return v.into();
    }
    PathBuf::from("/verif")
}
pub fn repo() -> PathBuf {
    "/repo".into()
}
pub fn build_dir() -> PathBuf {
    root().join("build")
}

fn run(cmd: &mut Command) -> Result<String, String> {
    let o = cmd.output().map_err(|e| format!("{:?}: {}", cmd, e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let tail: String = e.lines().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n");
        return Err(format!("{:?} failed:\n{}", cmd, tail));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

fn fresh(d: &Path) -> Result<(), String> {
    if d.exists() {
        std::fs::remove_dir_all(d).map_err(|e| format!("{}: {}", d.display(), e))?;
    }
    std::fs::create_dir_all(d).map_err(|e| format!("{}: {}", d.display(), e))
}

fn ll_files(d: &Path, pre: &[&str]) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).map_err(|e| format!("{}: {}", d.display(), e))? {
        let p = e.map_err(|e| e.to_string())?.path();
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if n.ends_with(".ll") && pre.iter().any(|x| n.starts_with(&format!("{}-", x))) {
            v.push(p.to_string_lossy().into_owned());
        }
    }
    v.sort();
    Ok(v)
}

const CRATES: [&str; 10] =
    ["hx", "baokeshed", "constant_time_eq", "arrayref", "arrayvec", "bitflags", "rayon", "hxref", "reference_impl", "hxcli"];

/// IR of a harness crate and the crates it uses. `hook` turns on the guarded
/// hook of the crate under test.
pub fn rust_ir(krate: &str, tag: &str, features: &str, hook: bool) -> Result<&'static Program, String> {
    rust_ir_with(krate, tag, features, hook, &[])
}
/// The same linked with C modules.
pub fn rust_ir_with(krate: &str, tag: &str, features: &str, hook: bool, more: &[String]) -> Result<&'static Program, String> {
    if hook {
        // the hook names private items: do without where they have changed
        if let Ok(p) = rust_ir1(krate, tag, features, true, more) {
            return Ok(p);
        }
    }
    rust_ir1(krate, tag, features, false, more)
}
fn rust_ir1(krate: &str, tag: &str, features: &str, hook: bool, more: &[String]) -> Result<&'static Program, String> {
    let td = build_dir().join(format!("ir-{}", tag));
    fresh(&td)?;
    let mut fl = String::from(
        "--emit=llvm-ir,link -C codegen-units=1 -C no-prepopulate-passes -C debug-assertions=on -C overflow-checks=on -Awarnings",
    );
    if hook {
        fl.push_str(" --cfg baokeshed_verif");
    }
    let mut c = Command::new("cargo");
    c.current_dir(root().join(krate)).args(["build", "--offline", "--release", "--lib"]);
    if !features.is_empty() {
        c.args(["--features", features]);
    }
    c.env("CARGO_TARGET_DIR", &td).env("RUSTFLAGS", fl);
    run(&mut c)?;
    let mut files = ll_files(&td.join("release/deps"), &CRATES)?;
    files.extend_from_slice(more);
    let p = Program::load(&files)?;
    let _ = std::fs::remove_dir_all(td.join("release/build"));
    Ok(Box::leak(Box::new(p)))
}

/// C configurations of the repository.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cc {
    Portable,
    Sse41,
    Avx2,
    Avx512,
    Neon,
}
pub const CCS: [Cc; 5] = [Cc::Portable, Cc::Sse41, Cc::Avx2, Cc::Avx512, Cc::Neon];
impl Cc {
    pub fn name(self) -> &'static str {
        match self {
            Cc::Portable => "portable",
            Cc::Sse41 => "sse41",
            Cc::Avx2 => "avx2",
            Cc::Avx512 => "avx512",
            Cc::Neon => "neon",
        }
    }
    /// (source, flags) pairs with the defines of the build script.
    pub fn files(self) -> Vec<(String, Vec<&'static str>)> {
        let mut main = vec![];
        let mut v: Vec<(String, Vec<&'static str>)> =
            vec![("c/baokeshed_portable.c".into(), vec![]), ("c64/baokeshed64_portable.c".into(), vec![])];
        let mut add = |n: &str, fl: &[&'static str], d: &'static str| {
            v.push((format!("c/baokeshed_{}.c", n), fl.to_vec()));
            v.push((format!("c64/baokeshed64_{}.c", n), fl.to_vec()));
            main.push(d);
        };
        if matches!(self, Cc::Sse41 | Cc::Avx2 | Cc::Avx512) {
            add("sse41", &["-msse4.1"], "-DBAOKESHED_USE_SSE41=1");
        }
        if matches!(self, Cc::Avx2 | Cc::Avx512) {
            add("avx2", &["-mavx2"], "-DBAOKESHED_USE_AVX2=1");
        }
        if matches!(self, Cc::Avx512) {
            add("avx512", &["-mavx512f", "-mavx512vl"], "-DBAOKESHED_USE_AVX512=1");
        }
        if matches!(self, Cc::Neon) {
            add("neon", &[], "-DBAOKESHED_USE_NEON=1");
        }
        v.push(("c/baokeshed.c".into(), main));
        v
    }
}

fn clang() -> &'static str {
    for p in ["/usr/bin/clang", "/usr/bin/clang-18"] {
        if Path::new(p).exists() {
            return p;
        }
    }
    "clang"
}

/// IR of the C sources in one configuration plus extra harness files.
pub fn c_ir(cc: Cc, tag: &str, extra: &[&str]) -> Result<&'static Program, String> {
    Ok(Box::leak(Box::new(Program::load(&c_ll(cc, tag, extra)?)?)))
}
pub fn c_ll(cc: Cc, tag: &str, extra: &[&str]) -> Result<Vec<String>, String> {
    if !extra.is_empty() {
        // names private fields: do without where they have changed
        if let Ok(p) = c_ir1(cc, tag, extra, "-DHXC_MID=1") {
            return Ok(p);
        }
    }
    c_ir1(cc, tag, extra, "-DHXC=1")
}
fn c_ir1(cc: Cc, tag: &str, extra: &[&str], def: &str) -> Result<Vec<String>, String> {
    let d = build_dir().join(format!("irc-{}-{}", cc.name(), tag));
    fresh(&d)?;
    let mut outs = vec![];
    let mut jobs: Vec<(String, PathBuf, Vec<&'static str>)> =
        cc.files().into_iter().map(|(f, fl)| (f.clone(), repo().join(&f), fl)).collect();
    if !extra.is_empty() {
        // the harness includes the main C file itself
        let main = jobs.pop().unwrap();
        for e in extra {
            jobs.push((e.to_string(), root().join(e), main.2.clone()));
        }
    }
    let mut kids = vec![];
    for (f, src, fl) in jobs {
        let o = d.join(format!("{}.ll", f.replace('/', "_")));
        let mut c = Command::new(clang());
        c.args(["-O0", "-Xclang", "-disable-O0-optnone", "-std=c11", "-g1", "-S", "-emit-llvm", "-w", def]).args(&fl);
        if cc == Cc::Neon {
            c.args(["-target", "aarch64-unknown-linux-gnu", "-ffreestanding", "-nostdlibinc"]);
            c.arg(format!("-I{}", root().join("cx/stub").display()));
        }
        c.arg(format!("-I{}", repo().join("c").display()));
        c.arg("-o").arg(&o).arg(&src);
        c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        let k = c.spawn().map_err(|e| e.to_string())?;
        kids.push((format!("{:?}", c), k));
        outs.push(o.to_string_lossy().into_owned());
    }
    for (c, k) in kids {
        let o = k.wait_with_output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("{} failed:\n{}", c, String::from_utf8_lossy(&o.stderr)));
        }
    }
    Ok(outs)
}

/// How to build for a replay.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Plain,
    /// with AddressSanitizer
    Asan,
    /// unoptimised, reporting every basic block, load and store
    Trace,
}
impl How {
    fn tag(self) -> &'static str {
        match self {
            How::Plain => "",
            How::Asan => "-asan",
            How::Trace => "-ct",
        }
    }
}
/// What to preload for a library built with `Trace`.
pub fn trace_runtime() -> Result<PathBuf, String> {
    let so = build_dir().join("libct.so");
    let mut c = Command::new("gcc");
    c.args(["-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fPIC", "-shared", "-o"]).arg(&so).arg(root().join("cx/ct_rt.c"));
    run(&mut c)?;
    Ok(so)
}

/// Native shared library of a Rust harness crate.
pub fn rust_native(krate: &str, features: &str, hook: bool, how: How) -> Result<PathBuf, String> {
    if hook {
        if let Ok(p) = rust_native1(krate, features, true, how) {
            return Ok(p);
        }
    }
    rust_native1(krate, features, false, how)
}
fn rust_native1(krate: &str, features: &str, hook: bool, how: How) -> Result<PathBuf, String> {
    let asan = how == How::Asan;
    let td = build_dir().join(format!(
        "nat-{}{}{}",
        krate,
        if features.is_empty() { String::new() } else { format!("-{}", features.replace(',', "_")) },
        how.tag()
    ));
    fresh(&td)?;
    let mut c = Command::new("cargo");
    if asan {
        c.arg("+nightly");
    }
    c.current_dir(root().join(krate)).args(["rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib"]);
    let mut f = String::from("native");
    if !features.is_empty() {
        f.push(',');
        f.push_str(features);
    }
    c.args(["--features", &f]);
    let mut fl = String::from("-Awarnings --cfg baokeshed_verif_native");
    if hook {
        fl.push_str(" --cfg baokeshed_verif");
    }
    if asan {
        fl.push_str(" -Zsanitizer=address -Zexternal-clangrt");
        c.args(["--target", "x86_64-unknown-linux-gnu"]);
        c.env("CFLAGS", "-fsanitize=address -O1");
    }
    if how == How::Trace {
        for x in [
            "-Cpasses=sancov-module",
            "-Cllvm-args=-sanitizer-coverage-level=3",
            "-Cllvm-args=-sanitizer-coverage-prune-blocks=0",
            "-Cllvm-args=-sanitizer-coverage-trace-pc",
            "-Cllvm-args=-sanitizer-coverage-trace-loads=true",
            "-Cllvm-args=-sanitizer-coverage-trace-stores=true",
        ] {
            fl.push(' ');
            fl.push_str(x);
        }
        c.args(["--target", "x86_64-unknown-linux-gnu"]);
        for (k, v) in [("OPT_LEVEL", "0"), ("DEBUG_ASSERTIONS", "true"), ("OVERFLOW_CHECKS", "true"), ("LTO", "off")] {
            c.env(format!("CARGO_PROFILE_RELEASE_{}", k), v);
        }
    }
    c.env("CARGO_TARGET_DIR", &td).env("RUSTFLAGS", fl);
    run(&mut c)?;
    Ok(td.join(format!("{}release/lib{}.so", if how != How::Plain { "x86_64-unknown-linux-gnu/" } else { "" }, krate)))
}

/// Native shared library of the C sources (NEON through a portable stand-in
/// for the intrinsics header).
pub fn c_native(cc: Cc, extra: &[&str], how: How) -> Result<PathBuf, String> {
    if !extra.is_empty() {
        if let Ok(p) = c_native1(cc, extra, "-DHXC_MID=1", how) {
            return Ok(p);
        }
    }
    c_native1(cc, extra, "-DHXC=1", how)
}
/// What to preload so that a library built with AddressSanitizer can be opened.
pub fn asan_runtime(lib: &str) -> Option<String> {
    let _ = lib;
    let n = "libasan.so";
    let o = Command::new("gcc").arg(format!("-print-file-name={}", n)).output().ok()?;
    Some(String::from_utf8_lossy(&o.stdout).trim().to_string())
}
fn c_native1(cc: Cc, extra: &[&str], def: &str, how: How) -> Result<PathBuf, String> {
    let asan = how == How::Asan;
    let d = build_dir().join(format!("natc-{}{}{}", cc.name(), if extra.is_empty() { "" } else { "-x" }, how.tag()));
    fresh(&d)?;
    let mut objs = vec![];
    let mut jobs: Vec<(String, PathBuf, Vec<&'static str>)> =
        cc.files().into_iter().map(|(f, fl)| (f.clone(), repo().join(&f), fl)).collect();
    if !extra.is_empty() {
        let main = jobs.pop().unwrap();
        for e in extra {
            jobs.push((e.to_string(), root().join(e), main.2.clone()));
        }
    }
    for (f, src, fl) in jobs {
        let o = d.join(format!("{}.o", f.replace('/', "_")));
        let mut c = Command::new(if how == How::Trace { clang() } else { "gcc" });
        c.args(["-O1", "-g", "-std=gnu11", "-fPIC", "-c", "-w", def]).args(&fl);
        if how == How::Trace {
            c.args(["-O0", "-fsanitize-coverage=edge,no-prune,trace-pc,trace-loads,trace-stores"]);
        }
        if asan {
            c.arg("-fsanitize=address");
        }
        if cc == Cc::Neon {
            c.arg(format!("-I{}", root().join("cx/neon").display()));
        }
        c.arg(format!("-I{}", repo().join("c").display()));
        c.arg("-o").arg(&o).arg(&src);
        run(&mut c)?;
        objs.push(o);
    }
    let so = d.join("libbk.so");
    let mut c = Command::new("gcc");
    c.arg("-shared");
    if asan {
        c.arg("-fsanitize=address");
    }
    run(c.arg("-o").arg(&so).args(&objs))?;
    Ok(so)
}
