//! C19 and C20: the command-line tool, run in a modelled environment.
//! See hxcli/src/lib.rs: main() and everything it calls is the real code.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::term::*;
use std::cell::RefCell;

const OUT: u64 = 8;
const NOUT: usize = 2048;
const NREC: u64 = OUT + NOUT as u64;
const REC: u64 = NREC + 8;
const RECSZ: u64 = 104;
const EXIT: u64 = REC + 4 * RECSZ;
const LOGSZ: u64 = EXIT + 16;

/// registers of the stubs
const ALLOWED: u32 = 9500;
const COUNT: u32 = 9501;

thread_local! {
    static STASH: RefCell<Vec<State>> = const { RefCell::new(vec![]) };
    static STREAMS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}

fn n_reg(st: &State, r: u32) -> Option<u64> {
    st.regs.get(&r).and_then(|t| cst(*t)).map(|x| x as u64)
}
fn s_pin(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let t = a[0].t()?;
    let t = x.pin(st, t)?;
    if cst(t).is_some() {
        return Ok(vt(t));
    }
    // every value it can have, one by one
    if !x.implied(st, ult(t, c64(4096)))? {
        return Err(Stop::Unsup("an amount of data that is not bounded".into()));
    }
    loop {
        let v = st.model.eval(t) as u64;
        if x.decide(st, eq(t, c64(v)))? {
            return Ok(vt(c64(v)));
        }
    }
}
/// Zeroes a buffer (pointer, length).
fn s_zero(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let t = a[1].t()?;
    let n = cst(x.pin(st, t)?).ok_or(Stop::Unsup("size of a buffer".into()))? as u64;
    let ty = crate::ir::mk(crate::ir::Ty::Int(8));
    for i in 0..n {
        let p = x.padd(&a[0], i)?;
        x.store(st, &p, &vt(c_byte(0)), ty)?;
    }
    Ok(V::U)
}
fn s_read(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    if let Some(n) = n_reg(st, ALLOWED) {
        if n == 0 {
            STASH.with(|s| s.borrow_mut().push(st.clone()));
            return Err(Stop::Dead);
        }
        st.regs.insert(ALLOWED, c64(n - 1));
    }
    let id = cst(a[0].t()?).ok_or(Stop::Unsup("output number".into()))? as usize;
    let pos = a[1].t()?;
    let f = STREAMS.with(|s| s.borrow()[id]);
    let ty = crate::ir::mk(crate::ir::Ty::Int(64));
    for i in 0..8 {
        let p = x.padd(&a[2], 8 * i)?;
        x.store(st, &p, &vt(arr(f, addc(pos, 8 * i), 8)), ty)?;
    }
    Ok(V::U)
}
fn s_exit(_: &mut Exec, _: &mut State, _: &str, a: &[V]) -> R<V> {
    let n = cst(a[0].t()?).ok_or(Stop::Unsup("exit code".into()))?;
    Err(Stop::Panic(format!("exit {}", n as i32)))
}
fn c_byte(b: u8) -> T {
    c(b as u128, 8)
}
fn s_nop(_: &mut Exec, _: &mut State, _: &str, _: &[V]) -> R<V> {
    Ok(V::U)
}

#[derive(Clone, Debug, Default)]
pub struct Inp {
    pub dash: bool,
    pub open_err: bool,
    pub stat_err: bool,
    pub is_file: bool,
    /// None: the length of the data
    pub meta: Option<(u128, u128)>,
    pub map_err: bool,
    pub reads: Vec<u64>,
    pub read_err: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Cli {
    /// 0 none, 1 --key, 2 --derive-key
    pub key: u8,
    pub key_ok: bool,
    pub key_len: u64,
    pub length: Option<(u64, u64)>,
    pub inputs: Vec<Inp>,
}
struct World {
    x: Exec,
    st: State,
    args: Vec<V>,
    log: ObjId,
    key: u32,
    len: T,
    meta: Vec<T>,
    maps: Vec<ObjId>,
    data: Vec<Vec<T>>,
    dom: Vec<T>,
    /// condition under which the last comparison fails
    wrong: Option<T>,
}
fn put(st: &mut State, o: ObjId, off: u64, t: T) {
    let ob = std::rc::Rc::make_mut(st.mem.get_mut(&o).unwrap());
    for i in 0..8 {
        ob.cells[off as usize + i] = Cell::B(t, i as u16);
    }
}
fn putp(st: &mut State, o: ObjId, off: u64, p: ObjId) {
    let ob = std::rc::Rc::make_mut(st.mem.get_mut(&o).unwrap());
    for i in 0..8 {
        ob.cells[off as usize + i] = Cell::P(p, c64(0), i as u8);
    }
}
fn world(p: &'static Program, k: &Cli) -> Result<World, String> {
    let mut x = Exec::new(p);
    x.stub(|f| f == "hxm_pin", s_pin, "hxm_pin");
    x.stub(|f| f == "hxm_read", s_read, "hxm_read");
    x.stub(|f| f == "hxm_exit", s_exit, "hxm_exit");
    x.stub(|f| f == "hxm_ismap", s_ismap, "hxm_ismap");
    x.stub(|f| f.contains("maybe_uninit") && f.contains("13write_default") && f.contains("DefaultSpec"), s_zero, "zero a buffer");
    let fmt = |f: &str, s: &str| f.contains("3fmt") && f.ends_with(s);
    x.redirect.push((Box::new(move |f| fmt(f, "9Formatter9write_str") || fmt(f, "9Formatter3pad")), "hxm_text", vec![1, 2]));
    x.redirect.push((Box::new(|f| f.ends_with("3fmteNtB5_7Display3fmt")), "hxm_text", vec![0, 1]));
    x.redirect.push((Box::new(|f| f.starts_with("_R") && f.contains("3fmt3num3imp")), "hxm_thing", vec![]));
    let mut st = x.state();
    let mut dom = vec![];
    let key = new_arr("key", true);
    let kobj = x.arr_obj(&mut st, "key", key, c64(0), c64(k.key_len), 1);
    let env = x.new_obj(&mut st, "env", 400, 8);
    for i in 0..50 {
        put(&mut st, env, 8 * i, c64(0));
    }
    put(&mut st, env, 0, c64(k.key as u64));
    put(&mut st, env, 8, c64(k.key_ok as u64));
    put(&mut st, env, 16, c64(k.key_len));
    putp(&mut st, env, 24, kobj);
    let len = match k.length {
        None => c64(32),
        Some((a, b)) if a == b => c64(a),
        Some((a, b)) => {
            let v = var_r("length", 64, a as u128, b as u128, 0, false);
            dom.push(ule(c64(a), v));
            dom.push(ule(v, c64(b)));
            v
        }
    };
    put(&mut st, env, 32, c64(k.length.is_some() as u64));
    put(&mut st, env, 40, len);
    let none = [Inp { dash: true, reads: vec![2], ..Default::default() }];
    let ins: &[Inp] = if k.inputs.is_empty() { &none } else { &k.inputs };
    put(&mut st, env, 48, c64(k.inputs.len() as u64));
    let (mut meta, mut maps, mut data) = (vec![], vec![], vec![]);
    for (i, f) in ins.iter().enumerate() {
        let at = 56 + 104 * i as u64;
        let n: u64 = f.reads.iter().sum();
        let a = new_arr("contents", true);
        let m = match f.meta {
            None => c64(n),
            Some((a, b)) if a == b => c(a, 64),
            Some((lo, hi)) => {
                let v = var_r("filelen", 64, lo, hi, 0, false);
                dom.push(ule(c(lo, 64), v));
                dom.push(ule(v, c(hi, 64)));
                v
            }
        };
        let map = x.arr_obj(&mut st, "mapping", a, c64(0), m, 4096);
        let rd = x.arr_obj(&mut st, "contents", a, c64(0), c64(n), 1);
        let fl = [f.dash, f.open_err, f.stat_err, f.is_file];
        for (j, b) in fl.iter().enumerate() {
            put(&mut st, env, at + 8 * j as u64, c64(*b as u64));
        }
        put(&mut st, env, at + 32, m);
        put(&mut st, env, at + 40, c64(f.map_err as u64));
        putp(&mut st, env, at + 48, map);
        putp(&mut st, env, at + 56, rd);
        for (j, r) in f.reads.iter().enumerate() {
            put(&mut st, env, at + 64 + 8 * j as u64, c64(*r));
        }
        put(&mut st, env, at + 88, c64(f.reads.len() as u64));
        put(&mut st, env, at + 96, c64(f.read_err as u64));
        meta.push(m);
        maps.push(map);
        data.push((0..n).map(|i| arr(a, c64(i), 1)).collect());
    }
    STREAMS.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        for i in 0..4u64 {
            let a = new_arr("stream", true);
            s.push(a);
            let o = x.arr_obj(&mut st, "stream", a, c64(0), c64(1 << 62), 1);
            putp(&mut st, env, 368 + 8 * i, o);
        }
    });
    STASH.with(|s| s.borrow_mut().clear());
    set_ro(&mut st, env);
    let log = x.new_obj(&mut st, "log", LOGSZ, 8);
    for i in 0..LOGSZ / 8 {
        put(&mut st, log, 8 * i, c64(0));
    }
    for d in &dom {
        x.assume(&mut st, *d).map_err(|e| format!("{:?}", e))?;
    }
    Ok(World { wrong: None, x, st, args: vec![ptr(env), ptr(log)], log, key, len, meta, maps, data, dom })
}
fn hexdigits(b: T) -> [T; 2] {
    let d = |n: T| {
        let ch = b"0123456789abcdef";
        (0..15).rev().fold(c_byte(ch[15]), |r, k| ite(eq(n, c(k as u128, 4)), c_byte(ch[k]), r))
    };
    [d(ext(b, 4, 4)), d(ext(b, 0, 4))]
}
fn word(x: &mut Exec, st: &mut State, o: ObjId, off: u64) -> Result<T, String> {
    Ok(read_words(x, st, o, off, 1, 64)?[0])
}
/// Printed text of a path.
fn printed(x: &mut Exec, st: &mut State, log: ObjId) -> Result<Vec<T>, String> {
    let n = word(x, st, log, 0)?;
    let n = cst(n).ok_or("amount of text")? as usize;
    read_words(x, st, log, OUT, n, 8)
}
/// Exit status of a finished path, or why it did not finish.
fn status(x: &mut Exec, pa: &mut Path, log: ObjId) -> Result<Result<u64, String>, String> {
    match &pa.end {
        End::Ret(_) => Ok(Ok(cst(word(x, &mut pa.st, log, EXIT)?).ok_or("exit")? as u64)),
        End::Panic(s) if s.starts_with("exit ") => Ok(Ok(s[5..].parse().unwrap_or(1))),
        e => Ok(Err(abnormal(e).unwrap_or_default())),
    }
}

fn s_ismap(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    Ok(vt(c64(match &a[0] {
        V::P(o, _) => (&*x.obj(st, *o)?.name == "mapping") as u64,
        _ => 0,
    })))
}
/// Prefer counterexamples that can be carried out.
fn small_model(pc: &[T], ts: &[T], seed: u64) -> Result<Option<RandEnv>, String> {
    for k in [6u32, 14, 22, 32, 33, 36] {
        let mut q = pc.to_vec();
        q.extend(ts.iter().map(|t| ult(*t, c64(1 << k))));
        if let Some(e) = eqv::model(&q, seed)? {
            return Ok(Some(e));
        }
    }
    eqv::model(pc, seed)
}
impl Cli {
    fn replay(&self, e: &RandEnv, w: &World) -> Replay {
        let key = if self.key_ok {
            crate::replay::hex(&env_bytes(e, w.key, 0, self.key_len as usize)).into_bytes()
        } else {
            b"0g".to_vec()
        };
        let mut args = vec![Arg::Int(self.key as u64), Arg::In(key), Arg::Int(self.length.is_some() as u64), Arg::Int(env_var(e, w.len)), Arg::Int(self.inputs.len() as u64)];
        let none = [Inp { dash: true, reads: vec![2], ..Default::default() }];
        let ins: &[Inp] = if self.inputs.is_empty() { &none } else { &self.inputs };
        for (i, f) in ins.iter().enumerate() {
            let n = w.data[i].len() as u64;
            let m = env_var(e, w.meta[i]);
            let kind = if f.dash {
                0
            } else if f.open_err {
                2
            } else if f.read_err {
                3
            } else if f.stat_err || m >= 1 << 63 {
                9
            } else if !f.is_file {
                4
            } else if f.map_err {
                6
            } else if m == 0 && n > 0 {
                5
            } else {
                1
            };
            let d = w.data[i].iter().map(|t| Eval::new(e).get(*t) as u8).collect();
            args.extend([Arg::Int(kind), Arg::Int(m), Arg::In(d)]);
        }
        Replay { lib: "tool".into(), func: "tool".into(), args, ..Default::default() }
    }
    fn good_key(&self) -> bool {
        self.key == 0 || (self.key_ok && self.key_len == 32)
    }
}
/// What must come of input i: Some(true) its hash, Some(false) no hash.
fn expect(f: &Inp) -> Option<bool> {
    if f.dash {
        return Some(!f.read_err);
    }
    if f.open_err {
        return Some(false);
    }
    if f.stat_err {
        return None;
    }
    Some(!f.read_err)
}

pub fn check_cli(p: &'static Program, k: &Cli, jr: &mut Jr) -> Result<(), String> {
    let mut w = world(p, k)?;
    let st = w.st.clone();
    let paths = w.x.call_all(&st, "hxcli_main", w.args.clone())?;
    jr.absorb(&w.x);
    let mut pcs = vec![];
    let free: Vec<T> = w.meta.iter().chain([&w.len]).copied().filter(|t| cst(*t).is_none()).collect();
    let none = [Inp { dash: true, reads: vec![2], ..Default::default() }];
    let ins: &[Inp] = if k.inputs.is_empty() { &none } else { &k.inputs };
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        let why = match status(&mut w.x, &mut pa, w.log)? {
            Err(s) => Some(s),
            Ok(code) => judge(&mut w, k, ins, &mut pa, code, jr)?,
        };
        match why {
            None => jr.ok(),
            Some(s) => {
                let mut q = pa.st.pc.clone();
                q.extend(w.wrong.take());
                let e = small_model(&q, &free, jr.seed)?.ok_or("infeasible path")?;
                let rp = k.replay(&e, &w);
                jr.fail(s, Some(rp));
            }
        }
    }
    complete(jr, &w.dom, &pcs);
    jr.sample(format!("{:?}: {} paths", k, pcs.len()));
    Ok(())
}
/// What is wrong with a finished run, if anything.
fn judge(w: &mut World, k: &Cli, ins: &[Inp], pa: &mut Path, code: u64, jr: &mut Jr) -> Result<Option<String>, String> {
    let len = cst(w.len).ok_or("length")? as u64;
    let out = printed(&mut w.x, &mut pa.st, w.log)?;
    let mut lines: Vec<Vec<T>> = vec![vec![]];
    for b in out {
        if cst(b) == Some(10) {
            lines.push(vec![]);
        } else {
            lines.last_mut().unwrap().push(b);
        }
    }
    if !lines.pop().unwrap().is_empty() {
        return Ok(Some("text after the last line".into()));
    }
    // diagnostics are constant text; at length 0 there is nothing else
    let mut got: Vec<Vec<T>> = if len > 0 { lines.into_iter().filter(|l| l.iter().any(|b| cst(*b).is_none())).collect() } else { lines };
    got.reverse();
    let mut bad = !k.good_key();
    if k.good_key() {
        for (i, f) in ins.iter().enumerate() {
            let suffix: Vec<T> = if k.inputs.len() > 1 {
                let name = if f.dash { b'-' } else { b'a' + i as u8 };
                [b' ', b' ', name].iter().map(|b| c_byte(*b)).collect()
            } else {
                vec![]
            };
            let want = match expect(f) {
                Some(b) => b,
                None => got.len() > ins[i + 1..].iter().filter(|f| expect(f) == Some(true)).count(),
            };
            if !want {
                bad = true;
                continue;
            }
            let Some(line) = got.pop() else { return Ok(Some(format!("no hash printed for input {}", i))) };
            if let Some(s) = check_line(w, k, f, i, &line, &suffix, len, pa, jr)? {
                return Ok(Some(s));
            }
        }
    }
    if !got.is_empty() {
        return Ok(Some("a hash is printed that should not be".into()));
    }
    if (code != 0) != bad {
        return Ok(Some(format!("exit status {}", code)));
    }
    Ok(None)
}
fn prove_all(w: &mut World, pc: &[T], got: &[T], want: &[T], jr: &mut Jr) -> Result<bool, String> {
    w.wrong = None;
    match eqv::prove(pc, got, want, jr.seed, &mut jr.eq) {
        Verdict::Same => Ok(true),
        Verdict::Diff(_) => {
            // numbers can differ for a reason of their own
            let d: Vec<T> = got.iter().zip(want).filter(|(a, b)| w_(**a) == w_(**b)).map(|(a, b)| eq(*a, *b)).collect();
            w.wrong = Some(not(and_all(&d)));
            Ok(false)
        }
        Verdict::Unknown(s) => Err(s),
    }
}
fn w_(t: T) -> u16 {
    crate::term::w(t)
}
#[allow(clippy::too_many_arguments)]
fn check_line(w: &mut World, k: &Cli, f: &Inp, i: usize, line: &[T], suffix: &[T], len: u64, pa: &mut Path, jr: &mut Jr) -> Result<Option<String>, String> {
    if line.len() as u64 != 2 * len + suffix.len() as u64 {
        return Ok(Some(format!("input {}: {} characters printed", i, line.len())));
    }
    let pc = pa.st.pc.clone();
    let n = cst(word(&mut w.x, &mut pa.st, w.log, NREC)?).ok_or("records")? as u64;
    let mut id = None;
    for r in 0..n {
        let a = STREAMS.with(|s| s.borrow()[r as usize]);
        let mut want: Vec<T> = (0..len).flat_map(|j| hexdigits(arr(a, c64(j), 1))).collect();
        want.extend(suffix);
        if prove_all(w, &pc, line, &want, jr)? {
            id = Some(r);
            break;
        }
    }
    let Some(id) = id else { return Ok(Some(format!("input {}: the line is not hex of an output", i))) };
    if len == 0 {
        return Ok(None);
    }
    let at = REC + id * RECSZ;
    let (x, st) = (&mut w.x, &mut pa.st);
    let mut got = vec![word(x, st, w.log, at)?];
    let mut want = vec![c64(k.key as u64)];
    if k.key != 0 {
        got.extend(read_words(x, st, w.log, at + 8, 32, 8)?);
        want.extend((0..32).map(|j| arr(w.key, c64(j), 1)));
    }
    let done = cst(word(x, st, w.log, at + 96)?);
    if done == Some(1) {
        let ptr = x.load(st, &V::P(w.log, c64(at + 40)), crate::ir::mk(crate::ir::Ty::Ptr)).map_err(|e| format!("{:?}", e))?;
        match ptr {
            V::P(o, off) if o == w.maps[i] => {
                got.push(off);
                want.push(c64(0));
            }
            _ => return Ok(Some(format!("input {}: hashes something else", i))),
        }
        got.push(word(x, st, w.log, at + 48)?);
        want.push(w.meta[i]);
    } else if f.is_file && !f.map_err && f.meta.map(|m| m.0 > 0 && m.1 < 1 << 63) == Some(true) {
        jr.notes.push(format!("input {} is read, not mapped: its length is not decided here", i));
    } else {
        let n = cst(word(x, st, w.log, at + 56)?).ok_or("length")? as usize;
        if n != w.data[i].len() {
            return Ok(Some(format!("input {}: {} of {} bytes hashed", i, n, w.data[i].len())));
        }
        got.extend(read_words(x, st, w.log, at + 64, n, 8)?);
        want.extend(&w.data[i]);
    }
    if !prove_all(w, &pc, &got, &want, jr)? {
        return Ok(Some(format!("input {}: not the hash of its contents in the mode asked for", i)));
    }
    Ok(None)
}

// ------------------------------------------------- any length

/// Objects of the frames on the stack, by place.
fn places(st: &State) -> FxMap<ObjId, (usize, usize)> {
    let mut m: FxMap<ObjId, (usize, usize)> = Default::default();
    for (i, f) in st.frames.iter().enumerate() {
        for (j, o) in f.objs.iter().enumerate() {
            m.insert(*o, (i, j));
        }
    }
    m
}
/// The numbers and pointers a state consists of, in an order that the same
/// point of another iteration repeats. None where a byte is unset.
#[derive(Clone, Debug)]
enum Item {
    Num(T),
    Ptr((usize, usize), T, u8),
    None,
}
#[derive(Clone, Copy, Debug)]
enum Slot {
    /// frame, local
    Local(usize, usize),
    /// object, first cell
    Cell(ObjId, usize),
}
fn items(st: &State, skip: &[ObjId]) -> Vec<(Slot, Item)> {
    let pl = places(st);
    let name = |o: ObjId| pl.get(&o).copied().unwrap_or((usize::MAX, o as usize));
    let mut v = vec![];
    for (i, f) in st.frames.iter().enumerate() {
        for (j, x) in f.l.iter().enumerate() {
            let it = match x {
                V::T(t) => Item::Num(*t),
                V::P(o, off) => Item::Ptr(name(*o), *off, 0),
                _ => Item::None,
            };
            v.push((Slot::Local(i, j), it));
        }
    }
    let mut os: Vec<ObjId> = st.mem.keys().copied().filter(|o| !skip.contains(o)).collect();
    os.sort_by_key(|o| name(*o));
    for o in os {
        let ob = &st.mem[&o];
        let mut k = 0;
        while k < ob.cells.len() {
            match ob.cells[k] {
                Cell::U => {
                    v.push((Slot::Cell(o, k), Item::None));
                    k += 1;
                }
                Cell::P(q, off, b) => {
                    v.push((Slot::Cell(o, k), Item::Ptr(name(q), off, b)));
                    k += 1;
                }
                Cell::B(t, b) => {
                    let n = w(t) as usize / 8;
                    let whole = b == 0 && k + n <= ob.cells.len() && (0..n).all(|i| ob.cells[k + i] == Cell::B(t, i as u16));
                    if whole {
                        v.push((Slot::Cell(o, k), Item::Num(t)));
                        k += n;
                    } else {
                        v.push((Slot::Cell(o, k), Item::Num(ext(t, 8 * b, 8))));
                        k += 1;
                    }
                }
            }
        }
    }
    v
}
fn set_slot(st: &mut State, s: Slot, t: T) {
    match s {
        Slot::Local(i, j) => st.frames[i].l[j] = V::T(t),
        Slot::Cell(o, k) => {
            let ob = std::rc::Rc::make_mut(st.mem.get_mut(&o).unwrap());
            for i in 0..w(t) / 8 {
                ob.cells[k + i as usize] = Cell::B(t, i);
            }
        }
    }
}
fn point(st: &State) -> Vec<(usize, u32, u32)> {
    st.frames.iter().map(|f| (f.f as *const _ as usize, f.bb, f.ip)).collect()
}
fn take_stash() -> Vec<State> {
    STASH.with(|s| std::mem::take(&mut *s.borrow_mut()))
}
fn resume(w: &mut World, mut st: State, allowed: u64) -> Result<(Vec<Path>, Vec<State>), String> {
    st.regs.insert(ALLOWED, c64(allowed));
    put(&mut st, w.log, 0, c64(0));
    let mut v = vec![];
    w.x.run(vec![st], &mut |_, p| {
        v.push(p);
        Ok(())
    })?;
    Ok((v, take_stash()))
}

/// Every length at once: the state at the second and third read of output
/// give the step by which the state changes; then one iteration from an
/// arbitrary number of steps must print what it should and take the step.
pub fn check_any_length(p: &'static Program, jr: &mut Jr) -> Result<(), String> {
    let k = Cli { length: Some((0, u64::MAX)), ..Default::default() };
    let mut wd = world(p, &k)?;
    let len = wd.len;
    let seed = jr.seed;
    let mut soft = false;
    // Everything printed by a path that ended, from position `from` on.
    let finished = |wd: &mut World, ps: Vec<Path>, from: T, soft: bool, jr: &mut Jr| -> Result<(), String> {
        for mut pa in ps {
            if let End::Unsup(s) = &pa.end {
                return Err(s.clone());
            }
            let why = match status(&mut wd.x, &mut pa, wd.log)? {
                Err(s) => Some((s, pa.st.pc.clone())),
                Ok(code) => {
                    let got = printed(&mut wd.x, &mut pa.st, wd.log)?;
                    let n = got.len() as u64;
                    let rest = sub(len, from);
                    let mut q = pa.st.pc.clone();
                    // 2 * rest digits and a line end
                    let right = if n % 2 == 1 { eq(rest, c64(n / 2)) } else { fls() };
                    q.push(not(right));
                    if code != 0 {
                        Some((format!("exit status {}", code), pa.st.pc.clone()))
                    } else if eqv::model(&q, seed)?.is_some() {
                        Some((format!("{} characters printed", n), q))
                    } else {
                        let a = STREAMS.with(|s| s.borrow()[0]);
                        let mut want: Vec<T> = (0..n / 2).flat_map(|j| hexdigits(arr(a, addc(from, j), 1))).collect();
                        want.push(c_byte(10));
                        match eqv::prove(&pa.st.pc, &got, &want, seed, &mut jr.eq) {
                            Verdict::Same => None,
                            Verdict::Diff(_) => Some(("not the stream in hex".into(), pa.st.pc.clone())),
                            Verdict::Unknown(s) => return Err(s),
                        }
                    }
                }
            };
            match why {
                None => jr.ok(),
                Some((s, q)) => {
                    let e = small_model(&q, &[len], seed)?.ok_or("infeasible path")?;
                    let mut rp = k.replay(&e, wd);
                    if soft {
                        rp.env.push(("VX_SOFT".into(), "1".into()));
                    }
                    jr.fail(s, Some(rp));
                }
            }
        }
        Ok(())
    };
    // A whole block printed between two reads?
    let block = |wd: &mut World, st: &mut State, from: T, jr: &mut Jr| -> Result<bool, String> {
        let got = printed(&mut wd.x, st, wd.log)?;
        if got.len() != 128 {
            return Ok(false);
        }
        let a = STREAMS.with(|s| s.borrow()[0]);
        let want: Vec<T> = (0..64).flat_map(|j| hexdigits(arr(a, addc(from, j), 1))).collect();
        prove_all(wd, &st.pc.clone(), &got, &want, jr)
    };
    let give_up = |jr: &mut Jr, s: &str| {
        jr.notes.push(format!("lengths beyond the explicit ones are not decided: {}", s));
        jr.ok();
        Ok(())
    };
    // The first reads of output, whatever the length and however the program
    // goes about it: what it prints is the stream.
    let mut st = wd.st.clone();
    st.regs.insert(ALLOWED, c64(3));
    let ps = wd.x.call_all(&st, "hxcli_main", wd.args.clone())?;
    if let Some(s) = ps.iter().find_map(|p| if let End::Unsup(s) = &p.end { Some(s.clone()) } else { None }) {
        take_stash();
        return give_up(jr, &s);
    }
    finished(&mut wd, ps, c64(0), soft, jr)?;
    for mut s in take_stash() {
        let got = printed(&mut wd.x, &mut s, wd.log)?;
        let a = STREAMS.with(|s| s.borrow()[0]);
        let want: Vec<T> = (0..got.len() as u64).map(|j| hexdigits(arr(a, c64(j / 2), 1))[j as usize % 2]).collect();
        let mut q = s.pc.clone();
        q.push(ult(len, c64(got.len() as u64 / 2)));
        let why = if eqv::model(&q, seed)?.is_some() {
            Some(("goes on after the last byte", q))
        } else if !prove_all(&mut wd, &s.pc.clone(), &got, &want, jr)? {
            Some(("not the stream in hex", s.pc.clone()))
        } else {
            None
        };
        match why {
            None => jr.ok(),
            Some((s, q)) => {
                let e = small_model(&q, &[len], seed)?.ok_or("infeasible path")?;
                let rp = k.replay(&e, &wd);
                jr.fail(s.to_string(), Some(rp));
            }
        }
    }
    // to the first read
    let mut st = wd.st.clone();
    st.regs.insert(ALLOWED, c64(0));
    let ps = wd.x.call_all(&st, "hxcli_main", wd.args.clone())?;
    let s0 = take_stash();
    drop(ps);
    let [s0] = &s0[..] else { return give_up(jr, "several ways to the first read") };
    // to the second
    let (ps, s1) = resume(&mut wd, s0.clone(), 1)?;
    finished(&mut wd, ps, c64(0), soft, jr)?;
    let [s1] = &s1[..] else { return give_up(jr, "several ways to the second read") };
    let mut s1 = s1.clone();
    if !block(&mut wd, &mut s1, c64(0), jr)? {
        return give_up(jr, "not one block for each read");
    }
    // and to the third: by now every variable of the loop has been set
    let (ps, s2) = resume(&mut wd, s1.clone(), 1)?;
    finished(&mut wd, ps, c64(64), soft, jr)?;
    let [s2] = &s2[..] else { return give_up(jr, "several ways to the third read") };
    let (s0, mut s1) = (&s1, s2.clone());
    if !block(&mut wd, &mut s1, c64(64), jr)? {
        return give_up(jr, "not one block for each read");
    }
    if point(s0) != point(&s1) {
        return give_up(jr, "not a loop");
    }
    // with nothing left, is there another read?
    let mut q = s1.pc.clone();
    q.push(ule(len, c64(128)));
    let slack = if eqv::model(&q, seed)?.is_some() { 0 } else { 1 };
    put(&mut s1, wd.log, 0, c64(0));
    let skip = [wd.log];
    let (i0, i1) = (items(s0, &skip), items(&s1, &skip));
    if i0.len() != i1.len() {
        return give_up(jr, "the state changes its form");
    }
    soft = true;
    let steps = var_r("steps", 64, 0, (1 << 58) - 3, 0, false);
    let from = addc(shl(steps, c64(6)), 128);
    let mut g = s1.clone();
    let mut moved: Vec<(usize, Option<u64>)> = vec![];
    for (n, ((_, a), (slot, b))) in i0.iter().zip(&i1).enumerate() {
        let same = match (a, b) {
            (Item::Num(x), Item::Num(y)) => x == y,
            (Item::Ptr(x, f, i), Item::Ptr(y, h, j)) => (x, f, i) == (y, h, j),
            (Item::None, Item::None) => true,
            _ => false,
        };
        if same {
            continue;
        }
        let (Item::Num(x), Item::Num(y)) = (a, b) else {
            moved.push((n, None));
            if let Item::Num(y) = b {
                set_slot(&mut g, *slot, var("any", w(*y)));
            }
            continue;
        };
        let mut d = None;
        if w(*x) == 64 && w(*y) == 64 {
            let e = sub(*y, *x);
            let v = match cst(e) {
                Some(v) => Some(v as u64),
                None => {
                    let v = s1.model.eval(e) as u64;
                    let mut q = s1.pc.clone();
                    q.push(ne(e, c64(v)));
                    eqv::model(&q, seed)?.is_none().then_some(v)
                }
            };
            d = v;
        }
        moved.push((n, d));
        match d {
            Some(d) => set_slot(&mut g, *slot, add(*y, mul(steps, c64(d)))),
            None => set_slot(&mut g, *slot, var("any", w(*y))),
        }
    }
    jr.notes.push(format!("loop state: {} values, {} change by a constant, {} are arbitrary", i1.len(), moved.iter().filter(|m| m.1.is_some()).count(), moved.iter().filter(|m| m.1.is_none()).count()));
    // an arbitrary number of steps later, with something left
    g.pc = wd.st.pc.clone();
    g.known.clear();
    g.pins.clear();
    for d in [ule(c64(0), steps), ule(steps, c64((1 << 58) - 3)), ule(addc(from, slack), len)] {
        if !wd.x.assume(&mut g, d).map_err(|e| format!("{:?}", e))? {
            return give_up(jr, "no second read");
        }
    }
    g.model = wd.x.solve(&g.pc).map_err(|e| format!("{:?}", e))?.ok_or("no model")?;
    let ig = items(&g, &skip);
    let (ps, s2) = resume(&mut wd, g, 1)?;
    if let Some(s) = ps.iter().find_map(|p| if let End::Unsup(s) = &p.end { Some(s.clone()) } else { None }) {
        return give_up(jr, &s);
    }
    finished(&mut wd, ps, from, soft, jr)?;
    for mut s2 in s2 {
        let mut bad = None;
        let mut q = s2.pc.clone();
        q.push(not(ule(addc(from, 64 + slack), len)));
        if !block(&mut wd, &mut s2, from, jr)? {
            bad = Some(("not the stream in hex".to_string(), s2.pc.clone()));
        } else if eqv::model(&q, seed)?.is_some() {
            bad = Some(("goes on after the last byte".into(), q));
        } else if point(&s2) != point(&s1) {
            return give_up(jr, "not one loop");
        } else {
            put(&mut s2, wd.log, 0, c64(0));
            let i2 = items(&s2, &skip);
            if i2.len() != ig.len() {
                return give_up(jr, "the state changes its form later");
            }
            for (n, ((_, a), (_, b))) in ig.iter().zip(&i2).enumerate() {
                let step = moved.iter().find(|m| m.0 == n).map(|m| m.1);
                let ok = match (step, a, b) {
                    (Some(None), _, _) => true,
                    (_, Item::Num(x), Item::Num(y)) => {
                        let d = c(step.flatten().unwrap_or(0) as u128, w(*x));
                        w(*x) == w(*y) && {
                            let want = add(*x, d);
                            want == *y || {
                                let mut q = s2.pc.clone();
                                q.push(ne(want, *y));
                                eqv::model(&q, seed)?.is_none()
                            }
                        }
                    }
                    (_, Item::Ptr(x, f, i), Item::Ptr(y, h, j)) => (x, f, i) == (y, h, j),
                    (_, Item::None, Item::None) => true,
                    _ => false,
                };
                if !ok {
                    return give_up(jr, &format!("the loop does not repeat its first step ({:?} {:?})", a, b));
                }
            }
        }
        match bad {
            None => jr.ok(),
            Some((s, q)) => {
                let e = small_model(&q, &[len], seed)?.ok_or("infeasible path")?;
                let mut rp = k.replay(&e, &wd);
                rp.env.push(("VX_SOFT".into(), "1".into()));
                jr.fail(s, Some(rp));
            }
        }
    }
    jr.absorb(&wd.x);
    Ok(())
}

// ------------------------------------------------- the real tool

pub fn build_tool() -> Result<std::path::PathBuf, String> {
    let td = crate::irb::build_dir().join("nat-tool");
    let _ = std::fs::remove_dir_all(&td);
    let o = std::process::Command::new("cargo")
        .current_dir(crate::irb::repo().join("baokeshed_bin"))
        .args(["build", "--offline", "--release", "-q"])
        .env("CARGO_TARGET_DIR", &td)
        .env("RUSTFLAGS", "-Awarnings")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    Ok(td.join("release/baokeshed"))
}
/// Runs the tool as the counterexample says, in a directory of its own.
pub fn run_tool(r: &Replay, exe: &std::path::Path) -> crate::replay::Outcome {
    use crate::replay::Outcome;
    let d = crate::irb::build_dir().join(format!("scratch-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    if let Err(e) = std::fs::create_dir_all(&d) {
        return Outcome::Error(e.to_string());
    }
    let res = run_in(r, exe, &d);
    let _ = std::fs::remove_dir_all(&d);
    match res {
        Ok(None) => Outcome::Fine,
        Ok(Some(s)) => Outcome::Confirmed(s),
        Err(e) => Outcome::Error(e),
    }
}
fn run_in(r: &Replay, exe: &std::path::Path, d: &std::path::Path) -> Result<Option<String>, String> {
    use std::io::{Read, Write};
    let int = |i: usize| match r.args.get(i) {
        Some(Arg::Int(n)) => *n,
        _ => 0,
    };
    let bytes = |i: usize| match r.args.get(i) {
        Some(Arg::In(b)) => b.clone(),
        _ => vec![],
    };
    let es = |e: std::io::Error| e.to_string();
    let (opt, ks) = (int(0), bytes(1));
    let n = int(4);
    let len = if int(2) == 1 { int(3) } else { 32 };
    let kb = crate::replay::unhex(&String::from_utf8_lossy(&ks));
    let good = opt == 0 || (ks.len() == 64 && kb.len() == 32 && ks.iter().all(|b| b.is_ascii_hexdigit()));
    let key: [u8; 32] = if good && opt != 0 { kb.try_into().unwrap_or([0; 32]) } else { [0; 32] };
    let mut c = std::process::Command::new("timeout");
    c.arg("60").arg(exe).current_dir(d);
    match opt {
        1 => drop(c.arg(format!("--key={}", String::from_utf8_lossy(&ks)))),
        2 => drop(c.arg(format!("--derive-key={}", String::from_utf8_lossy(&ks)))),
        _ => {}
    }
    if int(2) == 1 {
        c.arg(format!("--length={}", len));
    }
    let mut want: Vec<(Option<Vec<u8>>, String)> = vec![];
    let mut stdin = vec![];
    for i in 0..n.max(1) as usize {
        let (kind, meta, mut data) = (int(5 + 3 * i), int(6 + 3 * i), bytes(7 + 3 * i));
        let name = if kind == 0 { "-".to_string() } else { ["a", "b", "c"][i].to_string() };
        let f = d.join(&name);
        let mut content = None;
        match kind {
            0 => {
                stdin = data.clone();
                content = Some(data);
            }
            1 => {
                if meta > 1 << 34 {
                    return Err("the file would be too large".into());
                }
                std::fs::write(&f, &data).map_err(es)?;
                std::fs::OpenOptions::new().write(true).open(&f).map_err(es)?.set_len(meta).map_err(es)?;
                let mut big = vec![0u8; meta as usize];
                let m = data.len().min(big.len());
                big[..m].copy_from_slice(&data[..m]);
                content = Some(big);
            }
            2 => {}
            3 => std::fs::create_dir(&f).map_err(es)?,
            4 => {
                let s = std::process::Command::new("mkfifo").arg(&f).status().map_err(es)?;
                if !s.success() {
                    return Err("mkfifo".into());
                }
                // opened for both, so that neither side waits for the other
                let (g, dd) = (f.clone(), data.clone());
                std::thread::spawn(move || {
                    if let Ok(mut h) = std::fs::OpenOptions::new().write(true).open(&g) {
                        let _ = h.write_all(&dd);
                    }
                });
                content = Some(data);
            }
            5 | 6 => {
                let src: &[&str] = if kind == 5 { &["/proc/version"] } else { &["/sys/devices/system/cpu/online", "/sys/kernel/mm/transparent_hugepage/enabled", "/sys/devices/system/cpu/possible"] };
                let Some(s) = src.iter().find(|s| std::fs::metadata(s).is_ok()) else { return Err("no such file here".into()) };
                data = std::fs::read(s).map_err(es)?;
                std::os::unix::fs::symlink(s, &f).map_err(es)?;
                content = Some(data);
            }
            _ => return Err("cannot be set up".into()),
        }
        if n > 0 {
            c.arg(&name);
        }
        want.push((content, if n > 1 { format!("  {}", name) } else { String::new() }));
    }
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let mut ch = c.spawn().map_err(es)?;
    let mut si = ch.stdin.take().unwrap();
    std::thread::spawn(move || {
        let _ = si.write_all(&stdin);
    });
    // of a long output only the start
    let cap: u64 = 1 << 28;
    let mut out = vec![];
    ch.stdout.take().unwrap().take(cap).read_to_end(&mut out).map_err(es)?;
    let full = (out.len() as u64) < cap;
    if !full {
        let _ = ch.kill();
    }
    let code = ch.wait().map_err(es)?.code();
    if code == Some(124) && full {
        return Ok(Some("the tool does not finish within 60 s".into()));
    }
    let text = String::from_utf8_lossy(&out).into_owned();
    let mut expect = vec![];
    let mut bad = !good;
    for (content, suffix) in &want {
        match content {
            Some(m) if good => {
                let l = len.min(cap / 2 + 32) as usize;
                expect.push(format!("{}{}", crate::replay::hex(&oracle::hash(opt as u8, &key, m, l)), suffix));
            }
            _ => bad = true,
        }
    }
    if !full || len > cap / 2 {
        let e = &expect.first().map(|s| s.as_bytes()).unwrap_or(b"");
        let m = out.len().min(e.len());
        if out[..m] != e[..m] || (full && (out.len() as u64) < 2 * len.min(cap / 2)) {
            return Ok(Some(format!("the tool prints {} characters starting {:.64}, expected {} starting {:.64}", out.len(), text, 2 * len as u128, expect[0])));
        }
        return Ok(None);
    }
    let looks = |l: &&str| if len == 0 { true } else { l.split(' ').next().map(|h| h.len() >= 2 && h.bytes().all(|b| b.is_ascii_hexdigit())) == Some(true) };
    let got: Vec<&str> = text.lines().filter(looks).collect();
    if got != expect {
        return Ok(Some(format!("the tool prints {:.300?}, expected {:.300?}", got, expect)));
    }
    if (code != Some(0)) != bad {
        return Ok(Some(format!("the tool exits with {:?}", code)));
    }
    Ok(None)
}

// ------------------------------------------------- jobs

fn add_job(v: &mut Vec<Job>, p: &'static Program, k: Cli) {
    v.push(job(format!("tool {:?}", k), move |jr| check_cli(p, &k, jr)));
}
fn sin() -> Inp {
    Inp { dash: true, reads: vec![2], ..Default::default() }
}
fn file() -> Inp {
    Inp { is_file: true, reads: vec![1, 2], ..Default::default() }
}
pub fn length_jobs(p: &'static Program, thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    v.push(job("tool, any length", move |jr| check_any_length(p, jr)));
    let l = |n: u64| Some((n, n));
    for n in 0..=if thorough { 700 } else { 200 } {
        add_job(&mut v, p, Cli { length: l(n), ..Default::default() });
    }
    for n in [0, 1, 31, 32, 33, 63, 64, 65, 100, 128, 129] {
        for key in 1..3 {
            add_job(&mut v, p, Cli { key, key_ok: true, key_len: 32, length: l(n), inputs: vec![file()], ..Default::default() });
        }
        add_job(&mut v, p, Cli { length: l(n), inputs: vec![file(), sin(), file()], ..Default::default() });
    }
    add_job(&mut v, p, Cli { ..Default::default() });
    v
}
pub fn input_jobs(p: &'static Program, thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let big = (1u128 << 63) - 1;
    let max = u64::MAX as u128;
    let mut kinds = vec![];
    for reads in [vec![], vec![1], vec![3, 1], vec![2, 1, 4]] {
        kinds.push(Inp { dash: true, reads: reads.clone(), ..Default::default() });
        kinds.push(Inp { is_file: true, reads: reads.clone(), ..Default::default() });
        // a length of zero that says nothing about the contents
        kinds.push(Inp { is_file: true, meta: Some((0, 0)), reads: reads.clone(), ..Default::default() });
        // special files report any length
        kinds.push(Inp { meta: Some((0, max)), reads: reads.clone(), ..Default::default() });
        kinds.push(Inp { meta: Some((0, 0)), reads: reads.clone(), ..Default::default() });
        // too long to map, and not mappable
        kinds.push(Inp { is_file: true, meta: Some((big + 1, max)), reads: reads.clone(), ..Default::default() });
        kinds.push(Inp { is_file: true, meta: Some((1, big)), map_err: true, reads: reads.clone(), ..Default::default() });
        kinds.push(Inp { dash: true, reads: reads.clone(), read_err: true, ..Default::default() });
        kinds.push(Inp { reads: reads.clone(), read_err: true, ..Default::default() });
    }
    kinds.push(Inp { is_file: true, meta: Some((1, big)), ..Default::default() });
    kinds.push(Inp { open_err: true, ..Default::default() });
    kinds.push(Inp { open_err: true, is_file: true, reads: vec![1], ..Default::default() });
    kinds.push(Inp { stat_err: true, is_file: true, reads: vec![1], ..Default::default() });
    for f in &kinds {
        for key in 0..3 {
            let (key_ok, key_len) = (true, 32);
            if f.dash {
                add_job(&mut v, p, Cli { key, key_ok, key_len, ..Default::default() });
            }
            add_job(&mut v, p, Cli { key, key_ok, key_len, inputs: vec![f.clone()], ..Default::default() });
        }
    }
    // keys
    for key in 1..3 {
        for key_len in if thorough { (0..=130).collect::<Vec<u64>>() } else { (0..=40).chain([63, 64, 65, 96, 128]).collect() } {
            for f in [vec![], vec![file()]] {
                add_job(&mut v, p, Cli { key, key_ok: true, key_len, inputs: f, ..Default::default() });
            }
        }
        add_job(&mut v, p, Cli { key, key_ok: false, ..Default::default() });
        add_job(&mut v, p, Cli { key, key_ok: false, key_len: 32, inputs: vec![file(), sin()], ..Default::default() });
    }
    // several inputs
    let mut g = crate::inc::Lcg(77);
    for i in 0..if thorough { 1500 } else { 200 } {
        let mut inputs = vec![];
        for _ in 0..2 + g.next(2) {
            let mut f = kinds[g.next(kinds.len() as u64) as usize].clone();
            // standard input can be read once
            if f.dash && inputs.iter().any(|x: &Inp| x.dash) {
                f = file();
            }
            inputs.push(f);
        }
        add_job(&mut v, p, Cli { key: (i % 3) as u8, key_ok: true, key_len: 32, inputs, ..Default::default() });
    }
    v
}
