//! C11: copy_wide between a reader and a writer that may do anything their
//! contracts allow, and the Write interface of the hasher.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::replay::{Arg, Replay};
use crate::inc::u64s;
use crate::term::*;
use std::rc::Rc;

const CALLS: u32 = 9200; // calls so far
const RPOS: u32 = 9201; // bytes the reader has returned
const WPOS: u32 = 9202; // bytes the writer has accepted
const VALID: u32 = 9203; // the buffer holds stream bytes from this offset on
const FATAL: u32 = 9204; // 0: no failure; otherwise 1 + kind of the first
const FROM: u32 = 9205; // 1: the first failure was the reader's
const EOF: u32 = 9206; // the reader has reported the end
const WINT: u32 = 9207; // a write was interrupted
const LIMIT: u32 = 9208;
const JUMP: u32 = 9209; // reads after which the totals become arbitrary
const READS: u32 = 9210;
const TOTAL: u32 = 9211; // the arbitrary total
const DATA: u32 = 9212; // the array of stream bytes
const SKIP: u32 = 9213; // events before the jump
const KIND: u32 = 9214; // kind of the errors of the reader, of the writer
const PREFIX: u32 = 9230; // outcomes of the first calls, where given
const EV: u32 = 9300;
const KINDS: u64 = 20;
const WRITE_ZERO: u64 = 15;

fn reg(st: &State, r: u32) -> T {
    st.regs.get(&r).copied().unwrap_or(c64(0))
}
fn num(st: &State, r: u32) -> u64 {
    cst(reg(st, r)).unwrap_or(0) as u64
}
/// What the next call does: Some(bytes) or None and the kind of the error.
/// Forks on the class of the outcome; keeps its choices in registers.
fn outcome(x: &mut Exec, st: &mut State, n: T, write: bool) -> R<Result<T, T>> {
    let i = num(st, CALLS) as u32;
    if i as u64 >= num(st, LIMIT) {
        return Err(Stop::Dead);
    }
    let k = EV + 8 * i;
    st.regs.entry(k).or_insert_with(|| c64(write as u64));
    let class = *st.regs.entry(k + 1).or_insert_with(|| var_r("outcome", 3, 0, 4, 0, false));
    let class = st.regs.get(&(PREFIX + i)).copied().unwrap_or(class);
    // the part not transferred, no wider than needed: this keeps sums simple
    let rest = *st.regs.entry(k + 2).or_insert_with(|| match hi(n) {
        h if h < 1 << 40 => {
            let h = h.max(1);
            zext(var_r("rest", 128 - h.leading_zeros() as u16, 1, h, 0, false), 64)
        }
        _ => var_r("rest", 64, 1, mask(64), 0, false),
    });
    let kind = reg(st, KIND + write as u32);
    let empty = x.decide(st, eq(n, c64(0)))?;
    for (k, all) in [(0, true), (4, false)] {
        if x.decide(st, eq(class, c(k, 3)))? {
            if empty {
                return Err(Stop::Dead);
            }
            if all {
                return Ok(Ok(n));
            }
            if !x.assume(st, ult(rest, n))? {
                return Err(Stop::Dead);
            }
            return Ok(Ok(sub(n, rest)));
        }
    }
    if x.decide(st, eq(class, c(1, 3)))? {
        return Ok(Ok(c64(0)));
    }
    if x.decide(st, eq(class, c(2, 3)))? {
        return Ok(Err(c64(0)));
    }
    Ok(Err(kind))
}
fn record(st: &mut State, r: &Result<T, T>) {
    let i = num(st, CALLS);
    let v = match r {
        Ok(n) => *n,
        Err(k) => sub(c64(u64::MAX), *k),
    };
    st.regs.insert(EV + 8 * i as u32 + 4, v);
    st.regs.insert(CALLS, c64(i + 1));
}
fn fatal(st: &mut State, kind: T, reader: bool) {
    if cst(reg(st, FATAL)) == Some(0) {
        st.regs.insert(FATAL, addc(kind, 1));
        st.regs.insert(FROM, c64(reader as u64));
    }
}
/// Replaces every value equal to the running total by an arbitrary one: the
/// state after a longer run of the same loop.
fn jump(x: &mut Exec, st: &mut State) -> R<()> {
    let total = reg(st, RPOS);
    let t = var_r("total", 64, 2, (1u128 << 64) - (1 << 20), 0, false);
    let mut at = vec![];
    let m = st.model.clone();
    let mut same = |x: &mut Exec, st: &mut State, v: T| -> R<bool> {
        let n = w(v);
        if n != 64 && n != 32 || cst(v).is_some() {
            return Ok(false);
        }
        let want = trunc(total, n);
        Ok(v == want || m.eval(v) == m.eval(want) && x.implied(st, eq(v, want))?)
    };
    let ids: Vec<ObjId> = st.mem.keys().copied().collect();
    for o in ids {
        let ob = st.mem[&o].clone();
        if ob.ro || ob.arr.is_some() {
            continue;
        }
        let mut i = 0;
        while i < ob.cells.len() {
            let Cell::B(v, 0) = ob.cells[i] else {
                i += 1;
                continue;
            };
            let n = (w(v) / 8) as usize;
            let whole = n > 1 && i + n <= ob.cells.len() && (0..n).all(|k| ob.cells[i + k] == Cell::B(v, k as u16));
            if whole && same(x, st, v)? {
                at.push((o, i, n));
                i += n;
            } else {
                i += 1;
            }
        }
    }
    let mut loc = vec![];
    for f in 0..st.frames.len() {
        for i in 0..st.frames[f].l.len() {
            if let V::T(v) = st.frames[f].l[i] {
                if same(x, st, v)? {
                    loc.push((f, i, w(v)));
                }
            }
        }
    }
    for (o, i, n) in at {
        let ob = Rc::make_mut(st.mem.get_mut(&o).unwrap());
        let v = trunc(t, 8 * n as u16);
        for k in 0..n {
            ob.cells[i + k] = Cell::B(v, k as u16);
        }
    }
    for (f, i, n) in loc {
        st.frames[f].l[i] = V::T(trunc(t, n));
    }
    st.regs.insert(RPOS, t);
    st.regs.insert(WPOS, t);
    st.regs.insert(TOTAL, t);
    let k = reg(st, CALLS);
    st.regs.insert(SKIP, k);
    // nothing of what the buffer holds may be used again
    st.regs.insert(VALID, c64(u64::MAX));
    Ok(())
}
fn s_read(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let V::P(o, off) = a[0] else { return Err(Stop::Unsup("read buffer".into())) };
    let cap = a[1].t()?;
    if st.regs.contains_key(&JUMP) && !st.regs.contains_key(&TOTAL) && num(st, READS) == num(st, JUMP) {
        let moved = eq(reg(st, RPOS), reg(st, WPOS));
        if x.implied(st, moved)? {
            jump(x, st)?;
        }
    }
    if num(st, EOF) == 1 {
        return Err(Stop::Bad("copy", "a read after the end of the stream".into()));
    }
    let r = outcome(x, st, cap, false)?;
    x.bounds_maybe_empty(st, o, off, cap, true)?;
    if let Ok(n) = r {
        if cst(n) == Some(0) {
            st.regs.insert(EOF, c64(1));
        } else {
            let rpos = reg(st, RPOS);
            let arr = num(st, DATA) as u32;
            let base = sub(rpos, off);
            let ob = st.mem.get(&o).cloned().ok_or(Stop::Unsup("buffer".into()))?;
            let goes_on = match ob.arr {
                Some((_, b)) => x.implied(st, eq(b, base))?,
                None => ob.cells.iter().all(|c| !matches!(c, Cell::P(..))) && {
                    // plain bytes
                    false
                },
            };
            if ob.cells.iter().any(|c| matches!(c, Cell::P(..))) {
                return Err(Stop::Unsup("a buffer inside another object".into()));
            }
            if !goes_on {
                st.regs.insert(VALID, off);
                let ob = Rc::make_mut(st.mem.get_mut(&o).unwrap());
                ob.arr = Some((arr, base));
                ob.cells = vec![];
            }
            st.regs.insert(RPOS, add(rpos, n));
            let k = num(st, READS);
            st.regs.insert(READS, c64(k + 1));
        }
    }
    record(st, &r);
    Ok(vt(match r {
        Ok(n) => n,
        Err(k) => {
            if cst(k) != Some(0) {
                fatal(st, k, true);
            }
            sub(c64(u64::MAX), k)
        }
    }))
}
fn s_write(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let V::P(o, off) = a[0] else { return Err(Stop::Unsup("write buffer".into())) };
    let n = a[1].t()?;
    let r = outcome(x, st, n, true)?;
    x.bounds_maybe_empty(st, o, off, n, false)?;
    if let Ok(k) = r {
        if cst(k) == Some(0) {
            if !x.implied(st, eq(n, c64(0)))? {
                fatal(st, c64(WRITE_ZERO), false);
            }
        } else {
            let wpos = reg(st, WPOS);
            let ob = x.obj(st, o)?.clone();
            let Some((arr, base)) = ob.arr else { return Err(Stop::Unsup("written bytes are not from the read buffer".into())) };
            if arr as u64 != num(st, DATA) {
                return Err(Stop::Unsup("written bytes are not from the read buffer".into()));
            }
            let good = and_all(&[
                eq(add(base, off), wpos),
                ule(reg(st, VALID), off),
                ule(k, sub(reg(st, RPOS), wpos)),
            ]);
            if !x.implied(st, good)? {
                let _ = x.assume(st, not(good))?;
                record(st, &r);
                return Err(Stop::Bad("copy", "bytes written that are not the next ones read".into()));
            }
            st.regs.insert(WPOS, add(wpos, k));
        }
    }
    record(st, &r);
    Ok(vt(match r {
        Ok(n) => n,
        Err(k) => {
            if cst(k) == Some(0) {
                st.regs.insert(WINT, c64(1));
            } else {
                fatal(st, k, false);
            }
            sub(c64(u64::MAX), k)
        }
    }))
}
fn s_nop(_: &mut Exec, _: &mut State, _: &str, _: &[V]) -> R<V> {
    Ok(V::U)
}

/// std's numbering of the kinds of errors.
fn kinds(p: &'static Program) -> Result<Vec<u64>, String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let o = x.new_obj(&mut st, "out", 8 * KINDS, 8);
    let mut ps = x.call_all(&st, "hx_kinds", vec![ptr(o), vt(c64(KINDS))])?;
    let mut pa = ps.pop().ok_or("kinds")?;
    match &pa.end {
        End::Ret(v) if v.t().ok().and_then(cst) == Some(KINDS as u128) => {}
        e => return Err(format!("kinds: {:?}", abnormal(e))),
    }
    read_words(&mut x, &mut pa.st, o, 0, KINDS as usize, 64)?
        .into_iter()
        .map(|t| cst(t).map(|v| v as u64).ok_or("kinds".to_string()))
        .collect()
}
fn small(pc: &[T], t: Option<T>, seed: u64) -> Result<RandEnv, String> {
    if let Some(t) = t {
        for b in [17, 33] {
            let mut q = pc.to_vec();
            q.push(ule(t, c64(1 << b)));
            if let Some(e) = eqv::model(&q, seed)? {
                return Ok(e);
            }
        }
    }
    eqv::model(pc, seed)?.ok_or("infeasible path".into())
}
fn check_copy(p: &'static Program, limit: u64, jump: Option<u64>, kind: [u64; 2], prefix: &[u8], jr: &mut Jr) -> Result<(), String> {
    let kinds = kinds(p)?;
    let mut x = Exec::new(p);
    x.max_paths = 200_000;
    x.stub(|n| n == "vx_read", s_read, "reader (any behaviour)");
    x.stub(|n| n == "vx_write", s_write, "writer (any behaviour)");
    x.stub(|n| n == "vx_flush", s_nop, "flush");
    let mut st = x.state();
    st.regs.insert(LIMIT, c64(limit));
    if let Some(j) = jump {
        st.regs.insert(JUMP, c64(j));
    }
    for r in [CALLS, RPOS, WPOS, VALID, FATAL, FROM, EOF, WINT, READS] {
        st.regs.insert(r, c64(0));
    }
    for i in 0..2 {
        st.regs.insert(KIND + i, c64(kind[i as usize]));
    }
    for (i, k) in prefix.iter().enumerate() {
        st.regs.insert(PREFIX + i as u32, c(*k as u128, 3));
    }
    let data = new_arr("stream", true);
    st.regs.insert(DATA, c64(data as u64));
    let out = x.new_obj(&mut st, "out", 8, 8);
    let table = |k: T| (0..KINDS).rev().fold(c64(u64::MAX), |r, i| ite(eq(k, c64(i + 1)), c64(kinds[i as usize]), r));
    let (mut n, mut jumped, mut long) = (0u64, 0u64, 0);
    let args = vec![ptr(out)];
    let st0 = st.clone();
    let mut fails = vec![];
    x.call(&st0, "hx_copy_wide", args, &mut |x, mut pa| {
        n += 1;
        jumped += pa.st.regs.contains_key(&TOTAL) as u64;
        long = long.max(num(&pa.st, CALLS));
        let bad = match &pa.end {
            End::Unsup(s) => {
                jr.err(s.clone());
                return Ok(());
            }
            End::Ret(v) => {
                let err = v.t().map_err(|e| format!("{:?}", e))?;
                let val = read_words(x, &mut pa.st, out, 0, 1, 64)?[0];
                let g = |r: u32| reg(&pa.st, r);
                let (rp, wp, fa) = (g(RPOS), g(WPOS), g(FATAL));
                let is_ok = eq(err, c(0, 8));
                // without a failure: everything delivered and counted
                let whole = and_all(&[is_ok, eq(rp, wp), eq(val, wp), eq(g(EOF), c64(1))]);
                let int = and_all(&[eq(g(WINT), c64(1)), not(is_ok), eq(val, c64(kinds[0]))]);
                let good = or2(whole, int);
                // with one: it is the one reported, and what had been read
                // before the reader failed has been written
                let told = and2(not(is_ok), eq(val, table(fa)));
                let told = and2(told, or2(eq(g(FROM), c64(0)), eq(rp, wp)));
                let told = or2(told, int);
                let good = ite(eq(fa, c64(0)), good, told);
                if x.implied(&mut pa.st, good).map_err(|e| format!("{:?}", e))? {
                    None
                } else {
                    let _ = x.assume(&mut pa.st, not(good)).map_err(|e| format!("{:?}", e))?;
                    Some("wrong result of copy_wide".to_string())
                }
            }
            e => abnormal(e),
        };
        match bad {
            None => jr.ok(),
            Some(w) => {
                if fails.len() < 4 {
                    fails.push((w, pa.st));
                }
            }
        }
        Ok(())
    })?;
    jr.absorb(&x);
    let failed = !fails.is_empty();
    for (w, st) in fails {
        let e = small(&st.pc, st.regs.get(&TOTAL).copied(), jr.seed)?;
        let pre = st.regs.get(&TOTAL).map(|t| env_var(&e, *t)).unwrap_or(0);
        let (mut rs, mut ws) = (vec![], vec![]);
        let (mut r, mut wr) = (pre, pre);
        let (mut res, mut reader) = (None, false);
        for i in num(&st, SKIP)..num(&st, CALLS) {
            let k = EV + 8 * i as u32;
            let v = env_var(&e, reg(&st, k + 4)) as i64;
            let is_w = num(&st, k) == 1;
            if v > 0 && is_w {
                wr += v as u64;
            } else if v > 0 {
                r += v as u64;
            }
            if res.is_none() && (v < -1 || is_w && v == 0) {
                res = Some(if v == 0 { WRITE_ZERO } else { (-1 - v) as u64 });
                reader = !is_w;
            }
            if is_w { &mut ws } else { &mut rs }.push(v as u64);
        }
        let _ = wr;
        if res.is_none() && num(&st, EOF) == 0 {
            // it stopped before the end: there is one byte more
            rs.push(1);
            r += 1;
        }
        // after the script the reader is at its end and the writer takes all
        let mut want = match res {
            None => u64s(&[0, r, r, r, 1]),
            Some(k) if reader => u64s(&[1, kinds[k as usize], r, r, 1]),
            Some(k) => u64s(&[1, kinds[k as usize], r]),
        };
        if num(&st, WINT) == 1 && res.is_none() {
            // either way of treating it
            want.truncate(0);
        }
        jr.fail(
            w,
            Some(Replay {
                lib: "hx".into(),
                func: "hx_copy_script".into(),
                args: vec![
                    Arg::Int(pre),
                    Arg::In(u64s(&rs)),
                    Arg::Int(rs.len() as u64),
                    Arg::In(u64s(&ws)),
                    Arg::Int(ws.len() as u64),
                    Arg::Out(40),
                ],
                expect: vec![(5, want)],
                ..Default::default()
            }),
        );
    }
    if !failed && prefix.iter().all(|k| k % 4 == 0) {
        if jump.is_some() && jumped == 0 {
            jr.err("no path reached the arbitrary total");
        }
        if long < limit {
            jr.err("no path used all calls");
        }
    }
    jr.sample(format!("copy_wide with up to {} calls of reader and writer: {} paths, {} from an arbitrary total", limit, n, jumped));
    Ok(())
}

// ------------------------------------------------------------ Write

const POS: u32 = 9220;
const BUF: u32 = 9221;
const PIECES: u32 = 9222;

fn s_update(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let n = a[2].t()?;
    if let (V::P(o, off), Some(b)) = (&a[1], st.regs.get(&BUF).and_then(|t| cst(*t))) {
        if *o as u128 == b {
            x.bounds_maybe_empty(st, *o, *off, n, false)?;
            let pos = reg(st, POS);
            if !x.implied(st, or2(eq(n, c64(0)), eq(*off, pos)))? {
                let _ = x.assume(st, not(or2(eq(n, c64(0)), eq(*off, pos))))?;
                return Err(Stop::Bad("write", "the hasher is not given the next bytes".into()));
            }
            st.regs.insert(POS, add(pos, n));
            let k = num(st, PIECES);
            st.regs.insert(PIECES, c64(k + 1));
            if k > 40 {
                return Err(Stop::Dead);
            }
            return Ok(a[0].clone());
        }
    }
    Err(Stop::Unsup("update of something else".into()))
}
fn check_write(p: &'static Program, lo_: u64, hi_: u64, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let st = x.state();
    let size = match x.call_all(&st, "hx_size", vec![])?.pop().ok_or("size")?.end {
        End::Ret(v) => v.t().ok().and_then(cst).ok_or("size")? as u64,
        _ => return Err("size".into()),
    };
    let mut st = x.state();
    let h = x.new_obj(&mut st, "hasher", size, 16);
    crate::tree::set_plat(&mut x, &mut st, crate::tree::Plat::Avx2)?;
    let pa = x.call_all(&st, "hx_new", vec![ptr(h)])?.pop().ok_or("new")?;
    if let End::Unsup(e) = &pa.end {
        return Err(e.clone());
    }
    if let Some(e) = abnormal(&pa.end) {
        return Err(e);
    }
    let mut st = pa.st;
    let n = var_r("len", 64, lo_ as u128, hi_ as u128, 0, false);
    let data = new_arr("data", true);
    let buf = x.arr_obj(&mut st, "data", data, c64(0), n, 1);
    st.regs.insert(BUF, c64(buf as u64));
    for r in [POS, PIECES] {
        st.regs.insert(r, c64(0));
    }
    x.stub(|n| n.starts_with("_R") && n.contains("_9baokeshed") && n.ends_with("6Hasher6update"), s_update, "Hasher::update (its effect is C05's)");
    x.max_steps = 200_000;
    let paths = match x.call_all(&st, "hx_write", vec![ptr(h), ptr(buf), vt(n)]) {
        Ok(p) => p,
        Err(e) => {
            jr.notes.push(format!("write does not go through update ({}): covered for the lengths of the histories below only", e));
            return Ok(());
        }
    };
    jr.absorb(&x);
    for mut pa in paths {
        let bad = match &pa.end {
            End::Unsup(e) => {
                jr.notes.push(format!("write does not go through update ({}): covered for the lengths of the histories below only", e));
                continue;
            }
            End::Ret(v) => {
                let r = v.t().map_err(|e| format!("{:?}", e))?;
                let good = and2(eq(r, n), eq(reg(&pa.st, POS), n));
                if x.implied(&mut pa.st, good).map_err(|e| format!("{:?}", e))? {
                    None
                } else {
                    let _ = x.assume(&mut pa.st, not(good)).map_err(|e| format!("{:?}", e))?;
                    Some("write does not take the whole buffer or reports another length".to_string())
                }
            }
            e => abnormal(e),
        };
        match bad {
            None => jr.ok(),
            Some(w) => {
                let e = small(&pa.st.pc, Some(n), jr.seed)?;
                let l = env_var(&e, n);
                let rp = Replay {
                    lib: "hx".into(),
                    func: "hx_write_zeros".into(),
                    args: vec![Arg::Int(l), Arg::Out(16)],
                    expect: vec![(1, u64s(&[l, 1]))],
                    ..Default::default()
                };
                jr.fail(w, Some(rp));
            }
        }
    }
    jr.sample(format!("one write of {}..{} bytes and a flush", lo_, hi_));
    Ok(())
}
pub fn jobs(p: &'static Program, thorough: bool) -> Vec<Job> {
    let n = if thorough { 12 } else { 8 };
    let mut v = vec![];
    let depth = if thorough { 4 } else { 3 };
    for i in 0..5u32.pow(depth) {
        let pre: Vec<u8> = (0..depth).map(|k| (i / 5u32.pow(k) % 5) as u8).collect();
        v.push(job(format!("copy_wide, {} calls, outcomes {:?}", n, pre), move |jr: &mut Jr| check_copy(p, n, None, [14, 9], &pre, jr)));
    }
    for i in 0..25u8 {
        let pre = [4, 0, 4, 0, i % 5, i / 5];
        v.push(job(format!("copy_wide from any total, then {:?}", &pre[4..]), move |jr: &mut Jr| check_copy(p, n + 1, Some(2), [14, 9], &pre, jr)));
    }
    for k in 1..KINDS {
        v.push(job(format!("copy_wide, errors of kind {}", k), move |jr: &mut Jr| check_copy(p, 3, None, [k, KINDS - k], &[], jr)));
    }
    for (a, b) in [(0, 50_000), (1 << 31, 1 << 40)] {
        v.push(job(format!("write {}..{}", a, b), move |jr: &mut Jr| check_write(p, a, b, jr)));
    }
    v
}
