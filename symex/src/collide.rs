//! C08: no two (mode, key, message) reach one root input, up to collisions of
//! the compression function. The runs of two unrelated callers are compared:
//! their root inputs are set equal and the equation is taken apart, using that
//! equal results of the compression function have equal inputs; the solver has
//! to show that what is left makes mode, key and message equal.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::inc::{self, Ends};
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::smt;
use crate::spec::{self, Msg, UF32};
use crate::summ::Acc;
use crate::term::*;
use crate::tree::{set_plat, Plat, PLATS};

#[derive(Clone, Debug)]
pub struct Call {
    pub mode: u8,
    pub plat: Plat,
    /// 0 one-shot, 1 incremental, 2 extended output
    pub api: u8,
    pub ends: Ends,
}
/// One caller on one path: what it put in and what reached the root.
struct Side {
    call: Call,
    pc: Vec<T>,
    akey: u32,
    amsg: u32,
    lens: Vec<T>,
    total: T,
    /// number of blocks, length of the last
    blocks: u64,
    last: T,
    /// arguments of the root compressions
    roots: Vec<Vec<T>>,
}

/// The arguments of the compression these words are the output of.
fn origin(ws: &[T]) -> Option<Vec<T>> {
    let mut a: Option<&Box<[T]>> = None;
    for (i, x) in ws.iter().enumerate() {
        match op(*x) {
            Op::Uf(f, k, j) if *f == UF32 && *j as usize == i => match a {
                None => a = Some(k),
                Some(b) if b == k => {}
                _ => return None,
            },
            _ => return None,
        }
    }
    a.map(|x| x.to_vec())
}

fn run(p: &'static Program, acc: &Acc, k: &Call, jr: &mut Jr) -> Result<Vec<Side>, String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, k.plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = inc::start_of(k.mode, akey, amsg);
    let ws = inc::writes(&b, &k.ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let (blocks, last) = match ws.ats.last().copied().flatten() {
        Some((e, r)) => (e + 1, r),
        None => (1, c64(0)),
    };
    let mode = vt(c(k.mode as u128, 8));
    let nk = vt(c64(k.ends.len() as u64));
    let nb = if k.api == 2 { 2 } else { 1 };
    let out = x.new_obj(&mut st, "out", if nb == 1 { 32 } else { 64 * nb }, 1);
    let (f, args) = match k.api {
        0 => ("hx_oneshot", vec![mode, ptr(key), ptr(msg), vt(ws.total), ptr(out)]),
        1 => ("hx_updates", vec![mode, ptr(key), ptr(msg), ptr(lens), nk, vt(c(0, 8)), ptr(out)]),
        _ => ("hx_updates_xof", vec![mode, ptr(key), ptr(msg), ptr(lens), nk, ptr(out), vt(c64(nb))]),
    };
    let paths = x.call_all(&st, f, args)?;
    jr.absorb(&x);
    let mut v = vec![];
    for mut pa in paths {
        if let End::Unsup(s) = &pa.end {
            return Err(s.clone());
        }
        if let Some(s) = abnormal(&pa.end) {
            // (C14's concern: such a path delivers no hash)
            jr.notes.push(format!("{:?}: a path ends with {}", k, s));
            continue;
        }
        let per = if nb == 1 { 8 } else { 16 };
        let mut roots = vec![];
        for i in 0..nb {
            let got = read_words(&mut x, &mut pa.st, out, 64 * i, per, 32)?;
            let r = match origin(&got) {
                Some(r) => r,
                None => {
                    // the compression was not summarised: if the result is
                    // the specified one, so is the root input
                    let node = spec::tree_node(&b.key, b.mode, c64(0), &Msg::new(amsg, blocks, last));
                    let want = node.root(c64(64 * i));
                    match eqv::prove(&pa.st.pc, &got, &want[..per], jr.seed, &mut jr.eq) {
                        Verdict::Same => origin(&want).ok_or("specification")?,
                        _ => return Err("the root compression cannot be told".into()),
                    }
                }
            };
            roots.push(r);
        }
        v.push(Side { call: k.clone(), pc: pa.st.pc.clone(), akey, amsg, lens: ws.lens.clone(), total: ws.total, blocks, last, roots });
    }
    Ok(v)
}

/// Take an equation between arguments apart. None: it cannot hold.
fn unify(a: &[T], b: &[T]) -> Option<Vec<(T, T)>> {
    let mut left = vec![];
    let mut seen: FxSet<(T, T)> = Default::default();
    let mut todo: Vec<(Vec<T>, Vec<T>)> = vec![(a.to_vec(), b.to_vec())];
    while let Some((a, b)) = todo.pop() {
        // flags, position, block length first: most pairs end there
        for i in (0..a.len()).rev() {
            if let (Some(x), Some(y)) = (cst(a[i]), cst(b[i])) {
                if x != y {
                    return None;
                }
            }
        }
        let mut i = 0;
        while i < a.len() {
            if i + 8 <= a.len() {
                if let (Some(x), Some(y)) = (origin(&a[i..i + 8]), origin(&b[i..i + 8])) {
                    if seen.insert((a[i], b[i])) {
                        todo.push((x, y));
                    }
                    i += 8;
                    continue;
                }
                // nor is there an input for the constant the chaining starts with
                let fixed = |w: &[T]| w.iter().all(|x| cst(*x).is_some());
                if origin(&a[i..i + 8]).is_some() && fixed(&b[i..i + 8]) || origin(&b[i..i + 8]).is_some() && fixed(&a[i..i + 8]) {
                    return None;
                }
            }
            if a[i] != b[i] {
                if is_false(eq(a[i], b[i])) {
                    return None;
                }
                left.push((a[i], b[i]));
            }
            i += 1;
        }
    }
    Some(left)
}

/// Message bytes that differ, one disjunct for each byte either has.
fn differ(a: &Side, b: &Side, known: &FxSet<u64>) -> T {
    if a.call.mode != b.call.mode || a.blocks != b.blocks {
        return c(1, 1);
    }
    let mut v = vec![not(eq(a.last, b.last))];
    if a.call.mode != 0 {
        for i in 0..8 {
            v.push(not(eq(arr(a.akey, c64(4 * i), 4), arr(b.akey, c64(4 * i), 4))));
        }
    }
    for w in 0..16 * (a.blocks - 1) {
        if !known.contains(&(4 * w)) {
            v.push(not(eq(arr(a.amsg, c64(4 * w), 4), arr(b.amsg, c64(4 * w), 4))));
        }
    }
    for j in 0..64 {
        let at = c64(64 * (a.blocks - 1) + j);
        v.push(and2(ult(c64(j), a.last), not(eq(arr(a.amsg, at, 1), arr(b.amsg, at, 1)))));
    }
    v.into_iter().fold(c(0, 1), or2)
}

/// An assignment that satisfies the plain equations, extended so that the ones
/// with compression results hold as well, where those define bytes.
fn patch(e: &mut RandEnv, eqs: &[(T, T)]) {
    for _ in 0..4 {
        for (x, y) in eqs {
            for (x, y) in [(x, y), (y, x)] {
                if eqv::has_uf(*x) || !eqv::has_uf(*y) {
                    continue;
                }
                if let Op::Arr(a, i, n) = op(*x) {
                    if let Some(i) = cst(*i) {
                        let v = Eval::new(e).get(*y);
                        for j in 0..*n as u64 {
                            e.arrs.insert((*a, i as u64 + j), (v >> (8 * j)) as u8);
                        }
                    }
                }
            }
        }
    }
}

fn side_args(e: &RandEnv, s: &Side) -> Vec<Arg> {
    let ls: Vec<u64> = s.lens.iter().map(|l| env_var(e, *l)).collect();
    let total: u64 = ls.iter().sum();
    let k = if s.call.api == 0 { 0 } else { ls.len() as u64 };
    let lens = if k == 0 { vec![total] } else { ls };
    vec![
        Arg::Int(s.call.mode as u64),
        Arg::In(env_bytes(e, s.akey, 0, 32)),
        Arg::In(env_bytes(e, s.amsg, 0, total as usize)),
        Arg::In(inc::u64s(&lens)),
        Arg::Int(k),
    ]
}

/// Can root `i` of one caller be the root `j` of another?
fn compare(a: &Side, i: usize, b: &Side, j: usize, jr: &mut Jr) -> Result<(), String> {
    let left = match unify(&a.roots[i], &b.roots[j]) {
        None => {
            jr.eq.structural += 1;
            jr.ok();
            return Ok(());
        }
        Some(l) => l,
    };
    let mut known: FxSet<u64> = Default::default();
    let mut conj: Vec<T> = a.pc.iter().chain(&b.pc).copied().collect();
    let mut free: Vec<T> = conj.clone();
    let whole = 64 * (a.blocks.min(b.blocks) - 1);
    for (x, y) in &left {
        if let (Op::Arr(r, k, 4), Op::Arr(s, l, 4)) = (op(*x), op(*y)) {
            if let (true, true, true, Some(n)) = (*r == a.amsg, *s == b.amsg, k == l, cst(*k)) {
                if (n as u64) < whole && a.blocks == b.blocks {
                    // nothing else speaks of these bytes
                    known.insert(n as u64);
                    continue;
                }
            }
        }
        let t = eq(*x, *y);
        conj.push(t);
        if !eqv::has_uf(t) {
            free.push(t);
        }
    }
    let d = differ(a, b, &known);
    conj.push(d);
    free.push(d);
    if conj.iter().any(|x| is_false(*x)) {
        jr.eq.structural += 1;
        jr.ok();
        return Ok(());
    }
    match smt::check(&conj) {
        smt::Res::Unsat => {
            jr.eq.by_solver += 1;
            jr.ok();
            return Ok(());
        }
        smt::Res::Unknown => {
            jr.err("solver gives up");
            return Ok(());
        }
        _ => {}
    }
    let what = format!("{:?} and {:?} can reach the same root input", a.call, b.call);
    let mut e = match eqv::model(&free, jr.seed)? {
        Some(e) => e,
        None => {
            jr.err(format!("{} (no model)", what));
            return Ok(());
        }
    };
    for k in &known {
        for j in 0..4 {
            let v = e.arr(a.amsg, k + j);
            e.arrs.insert((b.amsg, k + j), v);
            e.arrs.insert((a.amsg, k + j), v);
        }
    }
    patch(&mut e, &left);
    let mut args = side_args(&e, a);
    args.extend(side_args(&e, b));
    args.push(Arg::Out(1));
    let lib = a.call.plat.lib();
    let env = vec![a.call.plat.env()];
    // (the function answers whether the two hashes are equal)
    jr.fail(what, Some(Replay { lib, func: "hx_collide".into(), args, expect: vec![(10, vec![0])], env, ..Default::default() }));
    Ok(())
}

/// Root inputs are never inner ones, inputs of parents never those of chunks:
/// of any run.
fn inner(sides: &[Side], jr: &mut Jr) -> Result<(), String> {
    // by flags, root or not, parent or not
    let mut by: std::collections::BTreeMap<(T, bool, bool), Vec<(usize, Vec<T>)>> = Default::default();
    for (n, s) in sides.iter().enumerate() {
        let mut add = |k: &[T], root: bool| {
            let parent = origin(&k[8..16]).is_some() && origin(&k[16..24]).is_some();
            let l = by.entry((k[26], root, parent)).or_default();
            if l.len() < 200 {
                l.push((n, k.to_vec()));
            }
        };
        for r in &s.roots {
            add(r, true);
        }
        let below: Vec<T> = s.roots.iter().flatten().copied().collect();
        let mut seen: FxSet<Vec<T>> = Default::default();
        for x in reach(&below) {
            if let Op::Uf(f, k, 0) = op(x) {
                if *f == UF32 && seen.insert(k.to_vec()) {
                    add(k, false);
                }
            }
        }
    }
    for ((f, root, parent), l) in &by {
        for ((g, root2, parent2), m) in &by {
            if !(*root && !*root2 || *parent && !*parent2) {
                continue;
            }
            if smt::check(&[eq(*f, *g)]) == smt::Res::Unsat {
                jr.ok();
                continue;
            }
            if let Some((s, t, eqs)) = meet(sides, l, m)? {
                let (s, t) = (&sides[s], &sides[t]);
                let free: Vec<T> = s.pc.iter().chain(&t.pc).copied().chain(eqs.iter().map(|(x, y)| eq(*x, *y))).filter(|x| !eqv::has_uf(*x)).collect();
                let mut e = eqv::model(&free, jr.seed)?.ok_or("no model")?;
                patch(&mut e, &eqs);
                let total = env_var(&e, s.total);
                let kb = env_bytes(&e, s.akey, 0, 32);
                let mb = env_bytes(&e, s.amsg, 0, total as usize);
                let ka: [u8; 32] = kb.clone().try_into().unwrap();
                let want = oracle::hash(s.call.mode, &ka, &mb, 32);
                let ls: Vec<u64> = s.lens.iter().map(|l| env_var(&e, *l)).collect();
                let mut args = vec![Arg::Int(s.call.mode as u64), Arg::In(kb), Arg::In(mb)];
                let (func, i) = if s.call.api == 0 {
                    args.push(Arg::Int(total));
                    ("hx_oneshot", 4)
                } else {
                    args.extend([Arg::In(inc::u64s(&ls)), Arg::Int(ls.len() as u64), Arg::Int(0)]);
                    ("hx_updates", 6)
                };
                args.push(Arg::Out(32));
                let what = if *root && !*root2 { "the root input can be an inner node's" } else { "a parent's input can be a chunk's" };
                let lib = s.call.plat.lib();
                jr.fail(
                    format!("{:?}: {} of {:?}", s.call, what, t.call),
                    Some(Replay { lib, func: func.into(), args, expect: vec![(i, want)], env: vec![s.call.plat.env()], ..Default::default() }),
                );
                return Ok(());
            }
            jr.ok();
        }
    }
    Ok(())
}
fn meet(sides: &[Side], l: &[(usize, Vec<T>)], m: &[(usize, Vec<T>)]) -> Result<Option<(usize, usize, Vec<(T, T)>)>, String> {
    for (n, r) in l {
        for (o, k) in m {
            if let Some(eqs) = unify(r, k) {
                let mut conj: Vec<T> = sides[*n].pc.iter().chain(&sides[*o].pc).copied().collect();
                conj.extend(eqs.iter().map(|(x, y)| eq(*x, *y)));
                if let smt::Res::Sat = smt::check(&conj) {
                    return Ok(Some((*n, *o, eqs)));
                }
            }
        }
    }
    Ok(None)
}

fn check_pairs(p: &'static Program, acc: &Acc, xs: &[Call], ys: &[Call], jr: &mut Jr) -> Result<(), String> {
    let mut a = vec![];
    let mut b = vec![];
    for (l, v) in [(xs, &mut a), (ys, &mut b)] {
        for k in l {
            match run(p, acc, k, jr) {
                Ok(s) => v.extend(s),
                Err(e) => jr.err(format!("{:?}: {}", k, e)),
            }
        }
    }
    for s in &a {
        for t in &b {
            for i in 0..s.roots.len() {
                for j in 0..t.roots.len() {
                    // (another position of the same stream is not another input)
                    if i == j || s.roots.len() == 1 || t.roots.len() == 1 {
                        compare(s, i, t, j, jr)?;
                    }
                    if jr.cex.len() > 2 {
                        return Ok(());
                    }
                }
            }
        }
    }
    a.extend(b);
    inner(&a, jr)?;
    jr.sample(format!("{:?} against {:?} and {} others", xs[0], ys[0], ys.len() - 1));
    Ok(())
}

pub fn calls(plat: Plat, thorough: bool, seed: u64) -> Vec<Call> {
    let mut es: Vec<(u64, bool)> = vec![];
    let mut bs: Vec<u64> = vec![0, 1, 2, 15, 30, 31, 32, 33, 34, 62, 63, 64, 65, 95, 96, 127, 128, 159, 160, 161, 255, 256, 257, 287, 288, 511, 512, 543];
    if thorough {
        bs.extend(3..15);
        bs.extend((6..17).map(|k| 32 * k + 7));
        bs.extend([1023, 1024, 1025, 1056]);
    }
    bs.sort();
    bs.dedup();
    for b in bs {
        es.push((b, false));
        es.push((b, true));
    }
    let mut g = inc::Lcg(seed ^ 0xc08);
    let mut v = vec![];
    let c_impl = matches!(plat, Plat::C(_));
    for mode in 0..3u8 {
        v.push(Call { mode, plat, api: c_impl as u8, ends: vec![None] });
        v.push(Call { mode, plat, api: 1, ends: vec![] });
        for (n, e) in es.iter().enumerate() {
            let apis: Vec<u8> = match (c_impl, thorough) {
                (true, _) => vec![1],
                (_, true) => vec![0, 1, 2],
                _ => vec![((n as u64 / 2 + mode as u64 + g.next(2)) % 3) as u8],
            };
            for api in apis {
                let mut ends = vec![Some(*e)];
                if api > 0 && g.next(2) == 0 && e.0 > 0 {
                    ends.insert(0, Some((g.next(e.0), g.next(2) == 0)));
                }
                v.push(Call { mode, plat, api, ends });
            }
        }
    }
    v
}
pub fn jobs(p: &'static Program, acc: &Acc, plats: &[Plat], thorough: bool, seed: u64) -> Vec<Job> {
    let mut v = vec![];
    for plat in plats {
        // neighbours go to different groups, so that groups take equally long
        let l = calls(*plat, thorough, seed);
        let n = (l.len() + 24) / 25;
        let gs: Vec<Vec<Call>> = (0..n).map(|i| l.iter().skip(i).step_by(n).cloned().collect()).collect();
        for i in 0..n {
            for j in i..n {
                let (acc, a, b) = (acc.clone(), gs[i].clone(), gs[j].clone());
                v.push(job(format!("pairs {:?} groups {} {}", plat, i, j), move |jr| check_pairs(p, &acc, &a, &b, jr)));
            }
        }
    }
    v
}
pub const RUST: [Plat; 3] = PLATS;
