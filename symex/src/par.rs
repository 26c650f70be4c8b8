//! C15: multithreaded one-shot hashing. Every join of the multithreaded build
//! runs its two halves in a symbolic order; what each half reads and writes is
//! recorded, and no access of one half may overlap a write of the other. Then
//! every interleaving computes what the sequential orders compute, and those
//! are shown to give the tree hash.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::inc;
use crate::ir::Program;
use crate::kern::*;
use crate::replay::{Arg, Replay};
use crate::spec;
use crate::summ::Acc;
use crate::term::*;
use crate::tree::{lens_of, set_plat, split_len, Plat, PLATS};
use std::collections::BTreeMap;
use std::rc::Rc;

/// How the order of the halves is chosen: 0 or 1 always, or symbolically.
const ORDER: u32 = 9100;
/// The join at which the thread picks up other work; that work; being at it.
const AT: u32 = 9080;
const STOLEN: u32 = 9081;
const STEALING: u32 = 9090;

fn s_begin(x: &mut Exec, st: &mut State, _: &str, _: &[V]) -> R<V> {
    let mode = st.regs.get(&ORDER).and_then(|t| cst(*t)).unwrap_or(2);
    let side = match mode {
        0 | 1 => mode,
        3 if st.regs.get(&STEALING).is_some() => 0,
        3 if st.regs.get(&AT).and_then(|t| cst(*t)) == Some(st.njoin as u128) => 3,
        3 => 0,
        _ => {
            let v = *st.regs.entry(ORDER + 1 + st.njoin).or_insert_with(|| var("order", 1));
            x.decide(st, v)? as u128
        }
    };
    let id = st.njoin;
    st.njoin += 1;
    let mut t = (*st.task).clone();
    t.push((id, 9));
    st.task = Rc::new(t);
    let m = st.next_obj;
    st.join_mark.push(m);
    st.threads.push(st.thread);
    Ok(vt(c(side, 8)))
}
fn s_task(_: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let side = cst(a[0].t()?).ok_or(Stop::Unsup("task".into()))? as u8;
    let mut t = (*st.task).clone();
    t.last_mut().ok_or(Stop::Unsup("task outside a join".into()))?.1 = side;
    let id = t.last().unwrap().0;
    st.task = Rc::new(t);
    // the second half runs in a thread of its own, where the other one might
    // not be finished; with order 0 both run in the same thread
    let same = st.regs.get(&ORDER).and_then(|t| cst(*t)) == Some(0) || st.regs.contains_key(&STEALING);
    let up = *st.threads.last().ok_or(Stop::Unsup("task outside a join".into()))?;
    st.thread = if side == 0 || same { up } else { id + 1 };
    Ok(V::U)
}
fn s_stolen(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let get = |st: &State, i: u32| st.regs.get(&(STOLEN + i)).copied().ok_or(Stop::Unsup("nothing to steal".into()));
    let w = crate::ir::mk(crate::ir::Ty::Int(64));
    for (i, p) in [(0, false), (1, true), (2, true), (3, false), (4, true)] {
        let t = get(st, i)?;
        let at = x.padd(&a[0], 8 * i as u64)?;
        let v = if p { ptr(cst(t).unwrap() as u32) } else { vt(t) };
        x.store(st, &at, &v, if p { crate::ir::mk(crate::ir::Ty::Ptr) } else { w })?;
    }
    st.regs.insert(STEALING, c(1, 1));
    Ok(V::U)
}
fn s_stolen_end(_: &mut Exec, st: &mut State, _: &str, _: &[V]) -> R<V> {
    st.regs.remove(&STEALING);
    Ok(V::U)
}
fn s_end(_: &mut Exec, st: &mut State, _: &str, _: &[V]) -> R<V> {
    let mut t = (*st.task).clone();
    t.pop();
    st.task = Rc::new(t);
    st.join_mark.pop();
    st.thread = st.threads.pop().unwrap_or(0);
    Ok(V::U)
}
fn s_threads(_: &mut Exec, st: &mut State, _: &str, _: &[V]) -> R<V> {
    let v = *st.regs.entry(ORDER - 1).or_insert_with(|| var_r("threads", 64, 1, 65535, 0, false));
    Ok(vt(v))
}

/// Accesses of the two halves of a join that may touch the same bytes, one of
/// them writing.
fn conflict(x: &mut Exec, st: &mut State, overlaps: &mut u64) -> Result<Option<String>, String> {
    let log = st.log.take().unwrap_or_default();
    // object -> join -> (reads of 0, writes of 0, reads of 1, writes of 1)
    let mut by: BTreeMap<ObjId, Vec<&Access>> = BTreeMap::new();
    for a in &log {
        by.entry(a.obj).or_default().push(a);
    }
    for (o, v) in by {
        if !v.iter().any(|a| a.write) {
            continue;
        }
        let mut js: BTreeMap<u32, [Vec<(T, T)>; 4]> = BTreeMap::new();
        for a in &v {
            for (j, side) in a.task.iter() {
                if *side > 1 {
                    continue;
                }
                let l = &mut js.entry(*j).or_default()[(2 * side + a.write as u8) as usize];
                if l.last() != Some(&(a.off, a.len)) {
                    l.push((a.off, a.len));
                }
            }
        }
        for (j, s) in js {
            for (p, q) in [(1, 3), (1, 2), (0, 3)] {
                let (p, q) = (merge(&s[p]), merge(&s[q]));
                for a in &p {
                    for b in &q {
                        // disjoint: a ends before b starts or the reverse
                        let dis = or2(ule(add(a.0, a.1), b.0), ule(add(b.0, b.1), a.0));
                        *overlaps += 1;
                        if is_true(dis) {
                            continue;
                        }
                        let bad = not(dis);
                        if x.assume(st, bad).map_err(|e| format!("{:?}", e))? {
                            let name = x.obj(st, o).map(|o| o.name.to_string()).unwrap_or_default();
                            return Ok(Some(format!(
                                "both halves of join {} use object {} at {}..+{} and {}..+{}, one of them writing",
                                j,
                                name,
                                show(a.0),
                                show(a.1),
                                show(b.0),
                                show(b.1)
                            )));
                        }
                    }
                }
            }
        }
    }
    Ok(None)
}
/// Constant ranges joined where they touch; others as they are.
fn merge(v: &[(T, T)]) -> Vec<(T, T)> {
    let mut k: Vec<(u128, u128)> = vec![];
    let mut o = vec![];
    for (a, n) in v {
        match (cst(*a), cst(*n)) {
            (_, Some(0)) => {}
            (Some(a), Some(n)) => k.push((a, a + n)),
            _ => o.push((*a, *n)),
        }
    }
    k.sort();
    let mut m: Vec<(u128, u128)> = vec![];
    for (a, b) in k {
        match m.last_mut() {
            Some(l) if a <= l.1 => l.1 = l.1.max(b),
            _ => m.push((a, b)),
        }
    }
    o.sort();
    o.dedup();
    m.into_iter().map(|(a, b)| (c(a, 64), c(b - a, 64))).chain(o).collect()
}

#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub mode: u8,
    pub plat: Plat,
    pub k: u64,
    /// 0: the first half first, then the second one in the same thread;
    /// 1: the second half first, in another thread; 2: symbolic, in different
    /// threads; 3: the first half first, and other work before the second
    pub order: u8,
    /// the join with the other work
    pub at: u32,
}
pub fn check_par(p: &'static Program, acc: &Acc, k: Par, jr: &mut Jr) -> Result<(), String> {
    for n in lens_of(k.k) {
        let mut x = Exec::new(p);
        acc.lock().unwrap().install(&mut x);
        x.stub(|n| n == "vx_join_begin", s_begin, "rayon::join (contract)");
        x.stub(|n| n == "vx_task", s_task, "rayon::join (half)");
        x.stub(|n| n == "vx_join_end", s_end, "rayon::join (end)");
        x.stub(|n| n == "vx_stolen", s_stolen, "other work");
        x.stub(|n| n == "vx_stolen_end", s_stolen_end, "other work (end)");
        x.stub(|n| n == "vx_threads", s_threads, "rayon::current_num_threads");
        let mut st = x.state();
        set_plat(&mut x, &mut st, k.plat)?;
        st.log = Some(vec![]);
        st.regs.insert(ORDER, c(k.order as u128, 8));
        let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
        let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
        let msg = x.arr_obj(&mut st, "message", amsg, c64(0), n, 1);
        let out = x.new_obj(&mut st, "out", 32, 1);
        let (akey2, amsg2) = (new_arr("key of the other work", true), new_arr("message of the other work", true));
        let steal = k.order == 3;
        let out2 = if steal {
            let key = x.arr_obj(&mut st, "other key", akey2, c64(0), c64(32), 1);
            let msg = x.arr_obj(&mut st, "other message", amsg2, c64(0), n, 1);
            let out = x.new_obj(&mut st, "other out", 32, 1);
            for (i, t) in [c64(k.mode as u64), c64(key as u64), c64(msg as u64), n, c64(out as u64)].into_iter().enumerate() {
                st.regs.insert(STOLEN + i as u32, t);
            }
            st.regs.insert(AT, c64(k.at as u64));
            Some(out)
        } else {
            None
        };
        let args = vec![vt(c(k.mode as u128, 8)), ptr(key), ptr(msg), vt(n), ptr(out)];
        let (kt, fl) = spec::mode_key(k.mode, &arr_words(akey, 0, 8, 4));
        let paths = x.call_all(&st, "hx_oneshot", args)?;
        jr.absorb(&x);
        let mk = |e: &RandEnv, want: &[u8], race: bool| -> Replay {
            let len = env_var(e, n);
            let mut args = vec![
                Arg::Int(k.mode as u64),
                Arg::In(env_bytes(e, akey, 0, 32)),
                Arg::In(env_bytes(e, amsg, 0, len as usize)),
                Arg::Int(len),
            ];
            let mut env = vec![k.plat.env()];
            if steal {
                args.extend([
                    Arg::Int(k.at as u64),
                    Arg::In(env_bytes(e, akey2, 0, 32)),
                    Arg::In(env_bytes(e, amsg2, 0, len as usize)),
                    Arg::Int(len),
                    Arg::Out(32),
                    Arg::Out(32),
                ]);
                let ka: [u8; 32] = env_bytes(e, akey2, 0, 32).try_into().unwrap();
                let other = crate::oracle::hash(k.mode, &ka, &env_bytes(e, amsg2, 0, len as usize), 32);
                env.push(("VX_JOIN".into(), "3".into()));
                return Replay {
                    lib: "hx:rayon".into(),
                    func: "hx_oneshot_steal".into(),
                    args,
                    expect: vec![(8, want.to_vec()), (9, other)],
                    env,
                    ..Default::default()
                };
            }
            let (f, i) = if race {
                args.extend([Arg::Int(400_000), Arg::In(want.to_vec()), Arg::Out(32)]);
                env.push(("VX_JOIN".into(), "2".into()));
                ("hx_oneshot_again", 6)
            } else {
                args.push(Arg::Out(32));
                ("hx_oneshot", 4)
            };
            Replay { lib: "hx:rayon".into(), func: f.into(), args, expect: vec![(i, want.to_vec())], env, ..Default::default() }
        };
        // with a fixed order the replay uses that order everywhere
        let order = |mut r: Replay| {
            if k.order < 2 {
                r.env.push(("VX_JOIN".into(), k.order.to_string()));
            }
            r
        };
        let mut pcs = vec![];
        let mut joins = 0;
        let mut over = 0;
        let mut joins_at = 0;
        for mut pa in paths {
            pcs.push(and_all(&pa.st.pc));
            joins = joins.max(pa.st.njoin);
            if let End::Unsup(s) = &pa.end {
                jr.err(s.clone());
                continue;
            }
            let expect = |e: &RandEnv| -> Vec<u8> {
                let len = env_var(e, n) as usize;
                let ka: [u8; 32] = env_bytes(e, akey, 0, 32).try_into().unwrap();
                crate::oracle::hash(k.mode, &ka, &env_bytes(e, amsg, 0, len), 32)
            };
            if let Some(s) = abnormal(&pa.end) {
                let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
                let w = expect(&e);
                jr.fail(s, Some(order(mk(&e, &w, false))));
                continue;
            }
            let (blocks, last) = match split_len(&mut x, &mut pa.st, n) {
                Ok(r) => r,
                Err(e) => {
                    jr.err(e);
                    continue;
                }
            };
            let node = spec::tree_node(&kt, fl, c64(0), &spec::Msg::new(amsg, blocks, last));
            let want = node.root(c64(0))[..8].to_vec();
            let mut got = read_words(&mut x, &mut pa.st, out, 0, 8, 32)?;
            let mut want = want;
            if let Some(o) = out2 {
                let (kt, fl) = spec::mode_key(k.mode, &arr_words(akey2, 0, 8, 4));
                let node = spec::tree_node(&kt, fl, c64(0), &spec::Msg::new(amsg2, blocks, last));
                want.extend(node.root(c64(0))[..8].to_vec());
                got.extend(read_words(&mut x, &mut pa.st, o, 0, 8, 32)?);
                joins_at += (pa.st.njoin > k.at) as u64;
            }
            match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
                Verdict::Same => jr.ok(),
                Verdict::Diff(e) => {
                    jr.fail("the result differs from the tree hash", Some(order(mk(&e, &inc::eval_bytes(&e, &want[..8]), false))))
                }
                Verdict::Unknown(s) => jr.err(s),
            }
            // in one thread nothing overlaps
            if k.order == 3 || k.order == 0 && x.tls_used(&pa.st) {
                continue;
            }
            match conflict(&mut x, &mut pa.st, &mut over)? {
                None => jr.ok(),
                Some(s) => {
                    let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
                    let w = expect(&e);
                    jr.fail(s, Some(mk(&e, &w, true)));
                }
            }
        }
        if steal && joins_at == 0 {
            jr.err("the other work was never done");
        }
        complete(jr, &[], &pcs);
        jr.sample(format!("{:?}: {} joins, {} paths, {} pairs of ranges shown disjoint", k, joins, pcs.len(), over));
    }
    Ok(())
}
pub fn jobs(p: &'static Program, acc: &Acc, thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for mode in 0..3u8 {
        for plat in PLATS {
            let d = plat.degree();
            let mut ks: Vec<u64> = (0..=if thorough { 70 } else { 12 }).collect();
            ks.extend([16, 17, 31, 32, 33, 40, 64, 65]);
            if thorough {
                ks.extend([127, 128, 129, 130, 256, 257]);
            }
            ks.sort();
            ks.dedup();
            for k in ks {
                let n = (k + d - 1) / d;
                for at in if thorough { 0..3 } else { 0..2 } {
                    if n < 2 || n > 5 + 3 * thorough as u64 || !thorough && ((k + mode as u64) % 3 != 0 || k > 17) {
                        continue;
                    }
                    // that many joins
                    if n <= 1 << at {
                        continue;
                    }
                    let acc = acc.clone();
                    let o = Par { mode, plat, k, order: 3, at };
                    v.push(job(format!("parallel {:?}", o), move |jr| check_par(p, &acc, o, jr)));
                }
                for order in [0, 1, 2] {
                    if order == 2 && n > if thorough { 8 } else if d > 1 { 3 } else { 4 } || order < 2 && n < 2 {
                        continue;
                    }
                    if !thorough && k > 17 && (mode > 0 || order == 1 && k % 4 != 1) {
                        continue;
                    }
                    if !thorough && mode > 0 && (k + mode as u64 + order as u64) % 3 != 0 {
                        continue;
                    }
                    let acc = acc.clone();
                    let o = Par { mode, plat, k, order, at: 0 };
                    v.push(job(format!("parallel {:?}", o), move |jr| check_par(p, &acc, o, jr)));
                }
            }
        }
    }
    v
}
