//! Function summaries: an internal kernel is replaced by the specification's
//! symbol only after this run has shown, by executing the kernel itself, that
//! it computes exactly that. Kernels that are missing, have another shape or
//! fail their contract are executed for real instead.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, Verdict};
use crate::exec::*;
use crate::ir::{mk, Program, Ty};
use crate::kern::*;
use crate::spec;
use crate::term::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// (cv, block, len, offset, flags)
    Compress,
    /// (out, cv, block, len, offset, flags)
    Xof,
    /// (inputs, blocks, key, offset, delta, flags, start, end, out)
    Rust(u64),
    /// the same with a table of offset steps
    C(u64),
    /// (out words, cv words, block words, offset, len, flags)
    Ref,
}

pub fn shape(p: &Program, sym: &str) -> Option<String> {
    let f = p.find(sym)?;
    let mut s = String::new();
    for (t, _) in &f.params {
        s.push(match t {
            Ty::Ptr => 'p',
            Ty::Int(8) => 'b',
            Ty::Int(32) => 'd',
            Ty::Int(64) => 'q',
            _ => '?',
        });
    }
    Some(s)
}

pub fn candidates(p: &'static Program) -> Vec<(String, Kind)> {
    let mut v = vec![];
    let mut names: Vec<String> = vec![];
    for m in &p.modules {
        names.extend(m.funcs.keys().map(|x| x.to_string()));
    }
    names.sort();
    names.dedup();
    for n in names {
        let k = if n.starts_with("_R") {
            let after = |pat: &str| n.contains("_9baokeshed") && n.ends_with(pat);
            if after("9baokeshed8portable8compress") || after("9baokeshed5sse418compress") {
                Kind::Compress
            } else if after("9baokeshed8portable12compress_xof") || after("9baokeshed5sse4112compress_xof") {
                Kind::Xof
            } else if after("9baokeshed5sse415hash4") {
                Kind::Rust(4)
            } else if after("9baokeshed4avx25hash8") {
                Kind::Rust(8)
            } else if n.contains("_14reference_impl") && n.ends_with("14reference_impl8compress") {
                Kind::Ref
            } else {
                continue;
            }
        } else {
            match n.as_str() {
                "compress_portable" | "compress_sse41" | "compress_avx512" => Kind::Compress,
                "hash4_sse41" | "hash4_avx512" | "hash4_neon" => Kind::C(4),
                "hash8_avx2" | "hash8_avx512" => Kind::C(8),
                "hash16_avx512" => Kind::C(16),
                _ => continue,
            }
        };
        let want = match k {
            Kind::Compress => "ppbqb",
            Kind::Xof => "pppbqb",
            Kind::Ref => "pppqdd",
            Kind::Rust(_) => "pqpqqbbbp",
            Kind::C(_) => "pqpqpbbbp",
        };
        if shape(p, &n).as_deref() == Some(want) {
            v.push((n, k));
        }
    }
    v
}

/// Proves the contract; Ok(false) when it does not hold.
fn verify(p: &'static Program, sym: &str, k: Kind, blocks: u64, jr: &mut Jr) -> Result<bool, String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let (fl, fs, fe) = (var("flags", 8), var("flags_start", 8), var("flags_end", 8));
    let mut want: Vec<T> = vec![];
    let out;
    let args;
    match k {
        Kind::Compress | Kind::Xof => {
            let (acv, ab) = (new_arr("cv", true), new_arr("block", true));
            let cvt = arr_words(acv, 0, 8, 4);
            let cv = obj_words(&x, &mut st, "cv", &cvt, 4);
            let b = x.arr_obj(&mut st, "block", ab, c64(0), c64(64), 1);
            let (bl, off) = (var("block_len", 8), var("offset", 64));
            want = spec::compress32(&cvt, &arr_words(ab, 0, 16, 4), zext(bl, 32), off, zext(fl, 32));
            if k == Kind::Xof {
                set_ro(&mut st, cv);
                out = x.new_obj(&mut st, "out", 64, 1);
                args = vec![ptr(out), ptr(cv), ptr(b), vt(bl), vt(off), vt(fl)];
            } else {
                out = cv;
                want.truncate(8);
                args = vec![ptr(cv), ptr(b), vt(bl), vt(off), vt(fl)];
            }
        }
        Kind::Ref => {
            let (acv, ab) = (new_arr("cv", true), new_arr("block", true));
            let (cvt, bt) = (arr_words(acv, 0, 8, 4), arr_words(ab, 0, 16, 4));
            let cv = obj_words(&x, &mut st, "cv", &cvt, 4);
            let b = obj_words(&x, &mut st, "block", &bt, 4);
            set_ro(&mut st, cv);
            set_ro(&mut st, b);
            let (bl, off, fl) = (var("block_len", 32), var("offset", 64), var("flags", 32));
            want = spec::compress32(&cvt, &bt, bl, off, fl);
            out = x.new_obj(&mut st, "out", 64, 4);
            args = vec![ptr(out), ptr(cv), ptr(b), vt(off), vt(bl), vt(fl)];
        }
        Kind::Rust(n) | Kind::C(n) => {
            let (ak, ai, ad) = (new_arr("key", true), new_arr("input", true), new_arr("delta", false));
            let kt = arr_words(ak, 0, 8, 4);
            let key = obj_words(&x, &mut st, "key", &kt, 4);
            set_ro(&mut st, key);
            let len = 64 * blocks;
            let ins: Vec<ObjId> = (0..n).map(|i| x.arr_obj(&mut st, "in", ai, c64(i * len), c64(len), 1)).collect();
            let ptrs = ptr_array(&x, &mut st, "inputs", &ins);
            let step = if blocks == 1 { 0 } else { 2048 };
            let (off, darg, dterm): (T, V, Vec<T>);
            if let Kind::Rust(_) = k {
                off = var_r("offset", 64, 0, (!0u64 - (n - 1) * step) as u128, 0, false);
                darg = vt(c64(step));
                dterm = (0..n).map(|i| c64(i * step)).collect();
            } else {
                off = var("offset", 64);
                dterm = arr_words(ad, 0, n as usize, 8);
                let d = obj_words(&x, &mut st, "deltas", &dterm, 8);
                set_ro(&mut st, d);
                darg = ptr(d);
            }
            out = x.new_obj(&mut st, "out", 32 * n, 1);
            args = vec![ptr(ptrs), vt(c64(blocks)), ptr(key), vt(off), darg, vt(fl), vt(fs), vt(fe), ptr(out)];
            for i in 0..n {
                let mut cv = kt.clone();
                for b in 0..blocks {
                    let mut f = fl;
                    if b == 0 {
                        f = or2(f, fs);
                    }
                    if b + 1 == blocks {
                        f = or2(f, fe);
                    }
                    let m = arr_words(ai, i * len + b * 64, 16, 4);
                    cv = spec::compress32(&cv, &m, c(64, 32), add(off, dterm[i as usize]), zext(f, 32))[..8].to_vec();
                }
                want.extend(cv);
            }
        }
    }
    let paths = x.call_all(&st, sym, args)?;
    jr.absorb(&x);
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if !matches!(pa.end, End::Ret(_)) {
            return Ok(false);
        }
        if crate::ct::on() && !crate::ct::clean(&pa, jr) {
            return Ok(false);
        }
        let got = read_words(&mut x, &mut pa.st, out, 0, want.len(), 32)?;
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => {}
            _ => return Ok(false),
        }
    }
    Ok(matches!(crate::smt::check(&[not(or_all(&pcs))]), crate::smt::Res::Unsat))
}

#[derive(Default, Debug)]
pub struct Summ {
    /// (symbol, kind, block counts)
    pub list: Vec<(String, Kind, Vec<u64>)>,
}
pub type Acc = Arc<Mutex<Summ>>;

/// Jobs that fill `acc`.
pub fn jobs(p: &'static Program, acc: &Acc) -> Vec<Job> {
    let mut v = vec![];
    for (sym, k) in candidates(p) {
        let bl: &[u64] = if matches!(k, Kind::Rust(_) | Kind::C(_)) { &[32, 1] } else { &[1] };
        for b in bl {
            let b = *b;
            if b == 1 && matches!(k, Kind::C(_)) {
                continue;
            }
            let acc = acc.clone();
            let sym = sym.clone();
            v.push(job(format!("contract of {} blocks={}", crate::ck::short(&sym), b), move |jr| {
                let ok = verify(p, &sym, k, b, jr).unwrap_or_else(|e| {
                    jr.notes.push(e);
                    false
                });
                if ok {
                    jr.ok();
                    let mut a = acc.lock().unwrap();
                    match a.list.iter_mut().find(|x| x.0 == sym) {
                        Some(x) => x.2.push(b),
                        None => a.list.push((sym.clone(), k, vec![b])),
                    }
                } else {
                    // not an error: the kernel is executed where it is used
                    jr.notes.push(format!("{} does not meet its contract; executed in place", sym));
                }
                Ok(())
            }));
        }
    }
    v
}

pub fn words(x: &mut Exec, st: &mut State, p: &V, n: u64) -> R<Vec<T>> {
    let ty = mk(Ty::Int(32));
    let mut v = vec![];
    for i in 0..n {
        let q = x.padd(p, 4 * i)?;
        v.push(x.load(st, &q, ty)?.t()?);
    }
    Ok(v)
}
pub fn put(x: &mut Exec, st: &mut State, p: &V, ws: &[T]) -> R<()> {
    let ty = mk(Ty::Int(32));
    for (i, t) in ws.iter().enumerate() {
        let q = x.padd(p, 4 * i as u64)?;
        x.store(st, &q, &vt(*t), ty)?;
    }
    Ok(())
}
fn s_compress(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let cv = words(x, st, &a[0], 8)?;
    let m = words(x, st, &a[1], 16)?;
    let r = spec::c32(&cv, &m, zext(a[2].t()?, 32), a[3].t()?, zext(a[4].t()?, 32));
    put(x, st, &a[0], &r[..8])?;
    Ok(V::U)
}
fn s_xof(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let cv = words(x, st, &a[1], 8)?;
    let m = words(x, st, &a[2], 16)?;
    let r = spec::c32(&cv, &m, zext(a[3].t()?, 32), a[4].t()?, zext(a[5].t()?, 32));
    put(x, st, &a[0], &r)?;
    Ok(V::U)
}
fn s_ref(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let cv = words(x, st, &a[1], 8)?;
    let m = words(x, st, &a[2], 16)?;
    let r = spec::c32(&cv, &m, a[4].t()?, a[3].t()?, a[5].t()?);
    put(x, st, &a[0], &r)?;
    Ok(V::U)
}
fn s_many(x: &mut Exec, st: &mut State, n: u64, table: bool, a: &[V]) -> R<V> {
    let blocks = match cst(a[1].t()?) {
        Some(b) if b == 32 || (b == 1 && !table) => b as u64,
        _ => return Err(Stop::Real),
    };
    let off = a[3].t()?;
    let mut offs = vec![];
    if table {
        for i in 0..n {
            let q = x.padd(&a[4], 8 * i)?;
            let d = x.load(st, &q, mk(Ty::Int(64)))?.t()?;
            offs.push(add(off, d));
        }
    } else {
        let d = match cst(a[4].t()?) {
            Some(d) if (d == 0 && blocks == 1) || (d == 2048 && blocks == 32) => d as u64,
            _ => return Err(Stop::Real),
        };
        if d > 0 {
            let fits = ule(off, c64(!0u64 - (n - 1) * d));
            if !x.implied(st, fits)? {
                return Err(Stop::Real);
            }
        }
        for i in 0..n {
            offs.push(addc(off, i * d));
        }
    }
    let key = words(x, st, &a[2], 8)?;
    let (fl, fs, fe) = (a[5].t()?, a[6].t()?, a[7].t()?);
    let mut out = vec![];
    for i in 0..n {
        let q = x.padd(&a[0], 8 * i)?;
        let inp = x.load(st, &q, mk(Ty::Ptr))?;
        let mut cv = key.clone();
        for b in 0..blocks {
            let mut f = fl;
            if b == 0 {
                f = or2(f, fs);
            }
            if b + 1 == blocks {
                f = or2(f, fe);
            }
            let q = x.padd(&inp, 64 * b)?;
            let m = words(x, st, &q, 16)?;
            cv = spec::c32(&cv, &m, c(64, 32), offs[i as usize], zext(f, 32))[..8].to_vec();
        }
        out.extend(cv);
    }
    put(x, st, &a[8], &out)?;
    Ok(V::U)
}
fn s_r4(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    s_many(x, st, 4, false, a)
}
fn s_r8(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    s_many(x, st, 8, false, a)
}
fn s_c4(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    s_many(x, st, 4, true, a)
}
fn s_c8(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    s_many(x, st, 8, true, a)
}
fn s_c16(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    s_many(x, st, 16, true, a)
}

impl Summ {
    pub fn install(&self, x: &mut Exec) {
        for (sym, k, bl) in &self.list {
            let need = if matches!(k, Kind::Rust(_)) { 2 } else { 1 };
            if bl.len() < need {
                continue;
            }
            let f: Stub = match k {
                Kind::Compress => s_compress,
                Kind::Xof => s_xof,
                Kind::Ref => s_ref,
                Kind::Rust(4) => s_r4,
                Kind::Rust(8) => s_r8,
                Kind::C(4) => s_c4,
                Kind::C(8) => s_c8,
                Kind::C(16) => s_c16,
                _ => continue,
            };
            let s = sym.clone();
            let name: &'static str = Box::leak(crate::ck::short(sym).into_boxed_str());
            x.stub(move |n| n == s, f, name);
        }
    }
    /// Are all the kernels summarised that the given number was expected for?
    pub fn n(&self) -> usize {
        self.list.len()
    }
}
