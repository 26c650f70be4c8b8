//! C04: long inputs. The recursion of the one-shot functions is replaced,
//! where its input is a complete subtree of 2^k chunks, by a symbol for the
//! chaining values it gives. That this is what the recursion computes is shown
//! by induction over k, for every key, message, offset and flags; what
//! remains of an input of any length is its right edge, which is executed.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, Verdict};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::spec::{self, Msg, Node};
use crate::summ::{self, Acc};
use crate::term::*;
use crate::tree::{set_plat, split_len, Plat, PLATS};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
struct Ctx {
    msg: ObjId,
    arr: u32,
    /// length of the whole input, which is never summarised
    whole: Option<u64>,
    degree: u64,
    /// levels the summary is used for
    max: u32,
    platform: Option<V>,
    used: u64,
}
thread_local!(static CX: RefCell<Ctx> = RefCell::new(Ctx::default()));

/// Levels shown, per platform.
pub type Levels = Arc<Mutex<BTreeSet<(u64, u32)>>>;

/// log2 of the chaining values the recursion returns.
fn width(degree: u64) -> u32 {
    degree.max(2).trailing_zeros()
}

fn s_recurse(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    CX.with(|cx| {
        let mut g = cx.borrow_mut();
        if g.platform.is_none() {
            g.platform = Some(a[5].clone());
        }
    });
    let g = CX.with(|cx| cx.borrow().clone());
    let len = match cst(a[1].t()?) {
        Some(n) if n % 2048 == 0 && (n / 2048).is_power_of_two() => n as u64,
        _ => return Err(Stop::Real),
    };
    let (k, wd) = ((len / 2048).trailing_zeros(), width(g.degree));
    if Some(len) == g.whole || k <= wd || k > g.max {
        return Err(Stop::Real);
    }
    // a large subtree the summary does not fit is not run for real
    let other = || if k > wd + 3 { Stop::Unsup("a complete subtree called otherwise than assumed".into()) } else { Stop::Real };
    let (n, at) = match (&a[0], a[5].clone()) {
        (V::P(o, off), V::T(pl)) if *o == g.msg && matches!(&g.platform, Some(V::T(q)) if *q == pl) => match cst(*off) {
            Some(at) if at % 64 == 0 => (1u64 << wd, at as u64),
            _ => return Err(other()),
        },
        _ => return Err(other()),
    };
    match cst(a[7].t()?) {
        Some(l) if l as u64 >= 32 * n => {}
        _ => return Err(other()),
    }
    let off = a[3].t()?;
    if !x.implied(st, and2(ule(off, c64((1u64 << 63) - len)), eq(ext(off, 0, (11 + k) as u16), c(0, (11 + k) as u16))))? {
        return Err(other());
    }
    let key = summ::words(x, st, &a[2], 8)?;
    let fl = zext(a[4].t()?, 32);
    let m = Msg::new(g.arr, (at + len) / 64, c64(64));
    let mut o = vec![];
    for i in 0..n {
        let d = i * (len >> wd);
        o.extend(spec::sub_cv(&key, fl, addc(off, d), at + d, k - wd, &m));
    }
    summ::put(x, st, &a[6], &o)?;
    CX.with(|cx| cx.borrow_mut().used += 1);
    Ok(vt(c64(n)))
}

/// The recursion, if the code has it in the expected shape.
fn find(p: &'static Program) -> Option<String> {
    let mut v: Vec<String> = vec![];
    for m in &p.modules {
        for (n, _) in m.funcs.iter() {
            let n = n.to_string();
            if n.starts_with("_R") && n.contains("_9baokeshed") && n.ends_with("9baokeshed12hash_recurse") && summ::shape(p, &n).as_deref() == Some("pqpqbbpq") {
                v.push(n);
            }
        }
    }
    v.sort();
    v.dedup();
    if v.len() == 1 {
        v.pop()
    } else {
        None
    }
}
fn install(x: &mut Exec, sym: &str) {
    let s = sym.to_string();
    x.stub(move |n| n == s, s_recurse, "hash_recurse on a complete subtree");
}

/// What the code passes as the platform, seen in a short run.
fn platform(p: &'static Program, acc: &Acc, sym: &str, plat: Plat) -> Result<V, String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    install(&mut x, sym);
    let mut st = x.state();
    set_plat(&mut x, &mut st, plat)?;
    let n = 2048 * 2 * plat.degree() + 1;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), c64(n), 1);
    let out = x.new_obj(&mut st, "out", 32, 1);
    CX.with(|cx| *cx.borrow_mut() = Ctx { msg, arr: amsg, whole: Some(n), degree: plat.degree(), ..Default::default() });
    x.call_all(&st, "hx_oneshot", vec![vt(c(0, 8)), ptr(key), ptr(msg), vt(c64(n)), ptr(out)])?;
    CX.with(|cx| cx.borrow().platform.clone()).ok_or("the recursion is not called".into())
}

/// Lengths that are replayed.
const NEAR: u64 = 5 << 30;
const STEPS: u64 = 3_000_000;

enum Lv {
    Shown,
    /// a difference, at this offset
    Differs(String, u64),
    Other(String),
}
/// Level k, given the lower levels, at any offset a subtree of this size can
/// have (near: in an input short enough to be replayed).
fn level(p: &'static Program, acc: &Acc, sym: &str, plat: Plat, k: u32, near: bool, jr: &mut Jr) -> Result<Lv, String> {
    let pv = platform(p, acc, sym, plat)?;
    let wd = width(plat.degree());
    let mut x = Exec::new(p);
    x.max_steps = STEPS;
    acc.lock().unwrap().install(&mut x);
    install(&mut x, sym);
    let mut st = x.state();
    set_plat(&mut x, &mut st, plat)?;
    let len = 2048u64 << k;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let kt = arr_words(akey, 0, 8, 4);
    let key = obj_words(&x, &mut st, "key", &kt, 4);
    set_ro(&mut st, key);
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), c64(len), 1);
    let far = if near { NEAR } else { 1u64 << 63 } - len;
    let off = if far < len { c64(0) } else { var_r("offset", 64, 0, far as u128, (11 + k) as u8, false) };
    let fl = var("flags", 8);
    let n = 1usize << wd;
    let out = x.new_obj(&mut st, "out", 32 * n as u64, 1);
    CX.with(|cx| *cx.borrow_mut() = Ctx { msg, arr: amsg, whole: Some(len), degree: plat.degree(), max: k - 1, platform: Some(pv.clone()), used: 0 });
    let paths = x.call_all(&st, sym, vec![ptr(msg), vt(c64(len)), ptr(key), vt(off), vt(fl), pv, ptr(out), vt(c64(32 * n as u64))])?;
    jr.absorb(&x);
    let mut pcs = vec![];
    let m = Msg::new(amsg, len / 64, c64(64));
    let mut want = vec![];
    let f32 = zext(fl, 32);
    let l = k - wd;
    for i in 0..n as u64 {
        let at = i * (len >> wd);
        let h = 1024u64 << l;
        let a = spec::sub_cv(&kt, f32, addc(off, at), at, l - 1, &m);
        let b = spec::sub_cv(&kt, f32, addc(off, at + h), at + h, l - 1, &m);
        want.extend(spec::parent_node(&kt, f32, &a, &b).cv());
    }
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        let count = match &pa.end {
            End::Ret(V::T(r)) => cst(*r) == Some(n as u128),
            End::Ret(_) => return Ok(Lv::Other("another result".into())),
            End::Unsup(s) => return Ok(Lv::Other(s.clone())),
            e => match abnormal(e) {
                Some(s) => {
                    let m = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
                    return Ok(Lv::Differs(s, env_var(&m, off)));
                }
                None => return Ok(Lv::Other(format!("{:?}", e))),
            },
        };
        if !count {
            let m = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            return Ok(Lv::Differs("another number of chaining values".into(), env_var(&m, off)));
        }
        let got = read_words(&mut x, &mut pa.st, out, 0, want.len(), 32)?;
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => {}
            Verdict::Diff(m) => return Ok(Lv::Differs("the chaining values differ from the tree's".into(), env_var(&m, off))),
            Verdict::Unknown(s) => return Ok(Lv::Other(s)),
        }
    }
    match crate::smt::check(&[not(or_all(&pcs))]) {
        crate::smt::Res::Unsat => Ok(Lv::Shown),
        r => Ok(Lv::Other(format!("path coverage: {:?}", r))),
    }
}

/// Hashing len zero bytes. Another decomposition than the one assumed is no
/// defect, so what does not reproduce is passed over.
fn replay(mode: u8, plat: Plat, key: Vec<u8>, len: u64) -> Option<Replay> {
    let ka: [u8; 32] = key.clone().try_into().unwrap();
    if len > NEAR {
        return None;
    }
    Some(Replay {
        lib: "hx".into(),
        func: "hx_zeros".into(),
        args: vec![Arg::Int(mode as u64), Arg::In(key), Arg::Int(len), Arg::Out(32)],
        expect: vec![(3, oracle::hash_zeros(mode, &ka, len))],
        env: vec![plat.env(), ("VX_SOFT".into(), "1".into())],
        ..Default::default()
    })
}

/// The specified tree with the same symbols.
fn node(key: &[T], mode: T, off: T, m: &Msg, wd: u32, max: u32, top: bool) -> Node {
    if m.blocks <= 32 {
        return spec::chunk_node(key, mode, off, m);
    }
    let chunks = (m.blocks + 31) / 32;
    let k = chunks.trailing_zeros();
    let full = m.blocks % 32 == 0 && chunks.is_power_of_two() && cst(m.last) == Some(64);
    if full && !top && k > wd && k <= max {
        return full_node(key, mode, off, m, 0, chunks, wd, k);
    }
    let l = 32 * oracle::left_chunks(chunks);
    let a = node(key, mode, off, &m.part(0, l), wd, max, false).cv();
    let b = node(key, mode, addc(off, l * 64), &m.part(l, m.blocks), wd, max, false).cv();
    spec::parent_node(key, mode, &a, &b)
}
fn full_node(key: &[T], mode: T, off: T, m: &Msg, at: u64, chunks: u64, wd: u32, k: u32) -> Node {
    let h = |at: u64| -> Vec<T> {
        if wd == 1 {
            spec::sub_cv(key, mode, addc(off, at), m.start + at, k - 1, m)
        } else {
            full_node(key, mode, off, m, at, chunks / 2, wd - 1, k - 1).cv()
        }
    };
    let a = h(at);
    let b = h(at + 1024 * chunks);
    spec::parent_node(key, mode, &a, &b)
}

fn check(p: &'static Program, acc: &Acc, lv: &Levels, sym: &str, mode: u8, plat: Plat, n: T, top: u32, jr: &mut Jr) -> Result<(), String> {
    let wd = width(plat.degree());
    let mut max = wd;
    {
        let g = lv.lock().unwrap();
        while g.contains(&(plat.degree(), max + 1)) {
            max += 1;
        }
    }
    if top > max + 3 {
        jr.notes.push(format!("{}: complete subtrees shown up to 2^{} chunks only; skipped", jr.name, max));
        return Ok(());
    }
    let mut x = Exec::new(p);
    x.max_steps = STEPS;
    acc.lock().unwrap().install(&mut x);
    install(&mut x, sym);
    let mut st = x.state();
    set_plat(&mut x, &mut st, plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), n, 1);
    let out = x.new_obj(&mut st, "out", 32, 1);
    let whole = cst(n).map(|v| v as u64);
    CX.with(|cx| *cx.borrow_mut() = Ctx { msg, arr: amsg, whole, degree: plat.degree(), max, platform: None, used: 0 });
    let paths = x.call_all(&st, "hx_oneshot", vec![vt(c(mode as u128, 8)), ptr(key), ptr(msg), vt(n), ptr(out)])?;
    jr.absorb(&x);
    let bad = |what: String, e: &eqv::RandEnv, jr: &mut Jr| match replay(mode, plat, env_bytes(e, akey, 0, 32), env_var(e, n)) {
        Some(r) => jr.fail(what, Some(r)),
        None => jr.notes.push(format!("{}: {}; too long to replay", jr.name, what)),
    };
    let (kt, fl) = spec::mode_key(mode, &arr_words(akey, 0, 8, 4));
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.notes.push(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            bad(s, &e, jr);
            continue;
        }
        let (blocks, last) = split_len(&mut x, &mut pa.st, n)?;
        let want = node(&kt, fl, c64(0), &Msg::new(amsg, blocks, last), wd, max, true).root(c64(0))[..8].to_vec();
        let got = read_words(&mut x, &mut pa.st, out, 0, 8, 32)?;
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => bad(format!("length {}: output differs from the tree hash", env_var(&e, n)), &e, jr),
            Verdict::Unknown(s) => jr.notes.push(s),
        }
    }
    if jr.notes.is_empty() {
        complete(jr, &[], &pcs);
    }
    let used = CX.with(|cx| cx.borrow().used);
    jr.sample(format!("{} paths, {} complete subtrees summarised", pcs.len(), used));
    Ok(())
}

/// Jobs that show the levels, and the jobs that use them.
pub fn jobs(p: &'static Program, acc: &Acc, thorough: bool) -> (Vec<Job>, Vec<Job>) {
    let lv = Levels::default();
    let (mut pre, mut v) = (vec![], vec![]);
    let sym = match find(p) {
        Some(s) => s,
        None => {
            v.push(job("long inputs", |jr| {
                jr.notes.push("no recursion of the expected shape; long inputs not covered".into());
                Ok(())
            }));
            return (pre, v);
        }
    };
    for plat in PLATS {
        let wd = width(plat.degree());
        for k in wd + 1..=51 {
            let (acc, lv, sym) = (acc.clone(), lv.clone(), sym.clone());
            pre.push(job(format!("complete subtree of 2^{} chunks, {:?}", k, plat), move |jr| {
                let mut r = level(p, &acc, &sym, plat, k, false, jr);
                if matches!(r, Ok(Lv::Differs(..))) && 2048 << k <= NEAR {
                    r = match level(p, &acc, &sym, plat, k, true, jr) {
                        Ok(Lv::Differs(s, off)) => {
                            if let Some(r) = replay(1, plat, (0..32).collect(), off + (2048 << k)) {
                                jr.fail(format!("subtree of 2^{} chunks at {}: {}", k, off, s), Some(r));
                            }
                            Ok(Lv::Differs(s, off))
                        }
                        _ => r,
                    }
                }
                match r {
                    Ok(Lv::Shown) => {
                        jr.ok();
                        lv.lock().unwrap().insert((plat.degree(), k));
                    }
                    Ok(Lv::Differs(s, _)) | Ok(Lv::Other(s)) | Err(s) => {
                        jr.notes.push(format!("the recursion on 2^{} chunks is not as assumed: {}", k, s))
                    }
                }
                Ok(())
            }));
        }
        for k in wd + 2..=51 {
            let b = 1u64 << k;
            let mut ns: Vec<(String, u64, bool)> = vec![
                (format!("2^{} chunks and a part", k), b, true),
                (format!("2^{} chunks and 2^{} and 3", k, k - 1), b + b / 2 + 3, false),
                (format!("2^{} chunks", k), b, false),
            ];
            if thorough || k % 4 == 0 || (k >= 19 && k < 23) {
                ns.push((format!("2^{}-2 chunks and a part", k + 1), 2 * b - 2, true));
            }
            for (s, ch, part) in ns {
                for mode in 0..3u8 {
                    if mode > 0 && !(thorough || k % 8 == 5) {
                        continue;
                    }
                    let (acc, lv, sym) = (acc.clone(), lv.clone(), sym.clone());
                    v.push(job(format!("long one-shot {}, mode {}, {:?}", s, mode, plat), move |jr| {
                        let n = if part { addc(zext(var_r("extra", 11, 1, if thorough { 2047 } else { 64 }, 0, false), 64), 2048 * ch) } else { c64(2048 * ch) };
                        if let Err(e) = check(p, &acc, &lv, &sym, mode, plat, n, k, jr) {
                            jr.notes.push(e);
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    (pre, v)
}
