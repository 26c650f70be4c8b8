//! C17: the reference implementation against the tree specification.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::inc::*;
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::spec::{self, Msg};
use crate::summ::Acc;
use crate::term::*;

/// The first n bytes of a stream of words.
fn bytes_of(ws: &[T], n: u64) -> Vec<T> {
    (0..n as usize).map(|i| ext(ws[i / 4], 8 * (i as u16 % 4), 8)).collect()
}
fn stream(node: &spec::Node, n: u64) -> Vec<T> {
    let ws: Vec<T> = (0..(n + 63) / 64).flat_map(|i| node.root(c64(64 * i))).collect();
    bytes_of(&ws, n)
}

#[derive(Clone, Debug)]
pub struct Up {
    pub mode: u8,
    pub ends: Ends,
    pub out: u64,
}
fn node_at(b: &Base, at: Option<(u64, T)>) -> Result<spec::Node, String> {
    Ok(match at {
        Some(_) => b.root(at)?,
        None => spec::chunk_node(&b.key, b.mode, c64(0), &Msg::new(b.arr, 1, c64(0))),
    })
}
struct Setup {
    x: Exec,
    st: State,
    b: Base,
    ws: Writes,
    key: ObjId,
    msg: ObjId,
    lens: ObjId,
    akey: u32,
    amsg: u32,
}
fn setup(p: &'static Program, acc: &Acc, mode: u8, ends: &Ends) -> Result<Setup, String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = start_of(mode, akey, amsg);
    let ws = writes(&b, ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    Ok(Setup { x, st, b, ws, key, msg, lens, akey, amsg })
}

pub fn check_up(p: &'static Program, acc: &Acc, k: &Up, jr: &mut Jr) -> Result<(), String> {
    let Setup { mut x, mut st, b, ws, key, msg, lens, akey, amsg } = setup(p, acc, k.mode, &k.ends)?;
    let nk = k.ends.len() as u64;
    let node = node_at(&b, ws.ats.last().copied().flatten())?;
    let out = x.new_obj(&mut st, "out", k.out, 1);
    let args = vec![vt(c(k.mode as u128, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(nk)), ptr(out), vt(c64(k.out))];
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let kb = env_bytes(e, akey, 0, 32);
        let mb = env_bytes(e, amsg, 0, ls.iter().sum::<u64>() as usize);
        let exp = oracle::hash(k.mode, &kb.clone().try_into().unwrap(), &mb, k.out as usize);
        let args = vec![Arg::Int(k.mode as u64), Arg::In(kb), Arg::In(mb), Arg::In(u64s(&ls)), Arg::Int(nk), Arg::Out(k.out as usize), Arg::Int(k.out)];
        Replay { lib: "hxref".into(), func: "hxr_updates".into(), args, expect: vec![(5, exp)], odd: vec![1, 2, 5], ..Default::default() }
    };
    let want = if k.out > 0 { vec![(out, 0, stream(&node, k.out))] } else { vec![] };
    let r = Run { f: "hxr_updates", what: format!("{:?}", k), want, dom: ws.assume.clone(), mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub mode: u8,
    pub ends: Ends,
    pub outs: [u64; 3],
}
pub fn check_obs(p: &'static Program, acc: &Acc, k: &Obs, jr: &mut Jr) -> Result<(), String> {
    let Setup { mut x, mut st, b, ws, key, msg, lens, akey, amsg } = setup(p, acc, k.mode, &k.ends)?;
    let mut args = vec![vt(c(k.mode as u128, 8)), ptr(key), ptr(msg), ptr(lens)];
    let mut want = vec![];
    for i in 0..3 {
        let o = x.new_obj(&mut st, "out", k.outs[i], 1);
        args.extend([ptr(o), vt(c64(k.outs[i]))]);
        if k.outs[i] > 0 {
            want.push((o, 0, stream(&node_at(&b, ws.ats[i.min(1)])?, k.outs[i])));
        }
    }
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let kb = env_bytes(e, akey, 0, 32);
        let mb = env_bytes(e, amsg, 0, ls.iter().sum::<u64>() as usize);
        let ka: [u8; 32] = kb.clone().try_into().unwrap();
        let mut args = vec![Arg::Int(k.mode as u64), Arg::In(kb), Arg::In(mb.clone()), Arg::In(u64s(&ls))];
        let mut expect = vec![];
        for i in 0..3 {
            let m = if i == 0 { &mb[..ls[0] as usize] } else { &mb[..] };
            expect.push((args.len() as i32, oracle::hash(k.mode, &ka, m, k.outs[i] as usize)));
            args.extend([Arg::Out(k.outs[i] as usize), Arg::Int(k.outs[i])]);
        }
        Replay { lib: "hxref".into(), func: "hxr_observe".into(), args, expect, ..Default::default() }
    };
    let r = Run { f: "hxr_observe", what: format!("{:?}", k), want, dom: ws.assume.clone(), mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

/// From the start of a chunk with `c` whole chunks before it (see inc::Mid).
#[derive(Clone, Debug)]
pub struct MidR {
    pub c: u64,
    pub low: u32,
    pub high: u32,
    pub ends: Ends,
}
pub fn check_mid(p: &'static Program, acc: &Acc, k: &MidR, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    let mut dom = vec![];
    let off = if k.high == 0 {
        c64(k.c * 2048)
    } else {
        let h = var_r("high", 64, 1, (1u128 << (53 - k.low)) - 1, 0, false);
        dom.push(eq(popcnt(h), c64(k.high as u64)));
        addc(shl(h, c64(k.low as u64 + 11)), (k.c & ((1 << k.low) - 1)) * 2048)
    };
    let (akey, astk, amsg) = (new_arr("key", true), new_arr("stack", true), new_arr("data", true));
    let key = arr_words(akey, 0, 8, 4);
    let flags = var_r("mode", 32, 0, 48, 4, false);
    let starts = stack_starts(k.c, true);
    let known: Vec<(u64, Vec<T>)> = starts.iter().enumerate().map(|(i, s)| (*s, arr_words(astk, 32 * i as u64, 8, 4))).collect();
    let b = Base { key: key.clone(), mode: flags, known, chunks: k.c, off, cv: key.clone(), done: 0, buffered: c64(0), arr: amsg, alt: None };
    let ws = writes(&b, &k.ends);
    dom.extend(ws.assume.iter().copied());
    for a in &dom {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let n = starts.len() as u64;
    let stack = x.arr_obj(&mut st, "stack", astk, c64(0), c64(32 * n), 4);
    let kobj = obj_words(&x, &mut st, "key", &key, 4);
    set_ro(&mut st, kobj);
    let msg = x.arr_obj(&mut st, "data", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let out = x.new_obj(&mut st, "out", 64, 1);
    let args = vec![ptr(stack), vt(c64(n)), ptr(kobj), vt(off), vt(flags), ptr(msg), ptr(lens), ptr(out)];
    let mut want = vec![];
    for i in 0..2 {
        want.push((out, 32 * i as u64, b.root(ws.ats[i])?.root(c64(0))[..8].to_vec()));
    }
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let args = vec![
            Arg::In(env_bytes(e, astk, 0, 32 * n as usize)),
            Arg::Int(n),
            Arg::In(eval_bytes(e, &key)),
            Arg::Int(env_var(e, off)),
            Arg::Int(env_var(e, flags)),
            Arg::In(env_bytes(e, amsg, 0, ls.iter().sum::<u64>() as usize)),
            Arg::In(u64s(&ls)),
            Arg::Out(64),
        ];
        let exp: Vec<u8> = want.iter().flat_map(|x| eval_bytes(e, &x.2)).collect();
        Replay { lib: "hxref".into(), func: "hxr_mid".into(), args, expect: vec![(7, exp)], odd: vec![5, 7], ..Default::default() }
    };
    let r = Run { f: "hxr_mid", what: format!("{:?}", k), want: want.clone(), dom, mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

/// Is the state after real writes what the mid-stream jobs assume?
fn check_form(p: &'static Program, acc: &Acc, ends: &Ends, jr: &mut Jr) -> Result<bool, String> {
    let Setup { mut x, mut st, b, ws, key, msg, lens, amsg, .. } = setup(p, acc, 1, ends)?;
    let base = st.clone();
    let out = x.new_obj(&mut st, "out", 1864, 8);
    let nk = ends.len() as u64;
    let args = vec![vt(c(1, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(nk)), ptr(out)];
    let paths = x.call_all(&st, "hxr_parts", args)?;
    jr.absorb(&x);
    let (e, _) = ws.ats.last().copied().flatten().ok_or("empty")?;
    let r = sub(ws.total, c64(64 * e));
    let full = Msg::new(amsg, e + 1, r);
    for mut pa in paths {
        if !matches!(pa.end, End::Ret(_)) {
            return Ok(false);
        }
        let mut rd = |x: &mut Exec, off: u64, n: usize, w: u16| read_words(x, &mut pa.st, out, off, n, w);
        let ch = e / 32;
        let starts = stack_starts(ch, true);
        let (mut got, mut want) = (vec![], vec![]);
        got.extend(rd(&mut x, 1696, 1, 64)?);
        want.push(c64(starts.len() as u64));
        for (i, s) in starts.iter().enumerate() {
            let to = starts.get(i + 1).copied().unwrap_or(ch);
            let m = Msg { last: c64(64), ..full.part(32 * s, 32 * to) };
            want.extend(spec::tree_node(&b.key, b.mode, c64(2048 * s), &m).cv());
            got.extend(rd(&mut x, 32 * i as u64, 8, 32)?);
        }
        got.extend(rd(&mut x, 1704, 8, 32)?);
        want.extend(&b.key);
        got.extend(rd(&mut x, 1768, 2, 64)?);
        want.extend([c64(2048 * ch), c64(e % 32)]);
        got.extend(rd(&mut x, 1848, 1, 64)?);
        want.push(r);
        got.extend(rd(&mut x, 1856, 1, 32)?);
        want.push(b.mode);
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(_) => return Ok(false),
            Verdict::Unknown(s) => return Err(s),
        }
    }
    check_pair(&mut x, &base, ["hxr_pair", "hxr_hasher_size"], key, msg, lens, nk, jr)
}

fn form_jobs(p: &'static Program, acc: &Acc, form: &Form) -> Vec<Job> {
    if p.find("hxr_parts").is_none() {
        return vec![];
    }
    let mut g = Lcg(5);
    (0..24)
        .map(|_| {
            let (acc, form) = (acc.clone(), form.clone());
            let m = 1 + g.next(3) as usize;
            let ends = random_ends(&mut g, m, 5, 9);
            job(format!("state after {:?}", ends), move |jr| {
                let ok = check_form(p, &acc, &ends, jr).unwrap_or_else(|e| {
                    jr.notes.push(e);
                    false
                });
                if !ok {
                    jr.notes.push(format!("state after {:?} has another form", ends));
                }
                let mut f = form.lock().unwrap();
                *f = Some(ok && f.unwrap_or(true));
                Ok(())
            })
        })
        .collect()
}

pub fn jobs(p: &'static Program, acc: &Acc, thorough: bool, seed: u64) -> (Vec<Job>, Vec<Job>) {
    let form = Form::default();
    let pre = form_jobs(p, acc, &form);
    let mut v = vec![];
    let mut g = Lcg(seed ^ 0x17);
    let mut n = 0u64;
    let mut up = |v: &mut Vec<Job>, mode: u8, ends: Ends, out: u64| {
        let acc = acc.clone();
        let k = Up { mode, ends, out };
        v.push(job(format!("writes {:?}", k), move |jr| check_up(p, &acc, &k, jr)));
    };
    // every output length, on a message of any length below a block and on a parent
    let top = if thorough { 700 } else { 200 };
    for out in 0..=top {
        let ends = if out % 4 == 1 { vec![Some((32, false))] } else { vec![Some((0, false))] };
        up(&mut v, (out % 3) as u8, ends, out);
    }
    for out in [255, 256, 257, 511, 1000, 1024, 2047, 4096, 5001] {
        up(&mut v, (out % 3) as u8, vec![Some((0, false))], out);
    }
    let l = [32, 32, 32, 1, 31, 33, 63, 64, 65, 100, 128, 131];
    for a in api_list(thorough, seed) {
        n += 1;
        if a.via || (!thorough && a.ends.len() > 1 && n % 2 == 0) {
            continue;
        }
        up(&mut v, a.mode, a.ends, l[g.next(l.len() as u64) as usize]);
    }
    // long messages
    for k in if thorough { vec![63, 64, 65, 127, 128, 129, 255, 256] } else { vec![31, 32, 63, 64, 127] } {
        for full in [false, true] {
            up(&mut v, (k % 3) as u8, vec![Some((32 * k + 31, full))], 32);
        }
    }
    // outputs in between
    for i in 0..if thorough { 200 } else { 40 } {
        let mut ends = random_ends(&mut g, 2, 3, 9);
        if i % 8 == 0 {
            ends[0] = None;
        }
        let mut o = || l[g.next(l.len() as u64) as usize];
        let k = Obs { mode: (i % 3) as u8, ends, outs: [o(), o(), o()] };
        let acc = acc.clone();
        v.push(job(format!("outputs {:?}", k), move |jr| check_obs(p, &acc, &k, jr)));
    }
    if p.find("hxr_mid").is_some() {
        let mut l = vec![];
        let m = |g: &mut Lcg, c: u64, room: u64| -> Ends {
            let mut e: Vec<(u64, bool)> = vec![(32 * g.next(3) + [0, 1, 31, 31][g.next(4) as usize], g.next(2) == 0), (32 * (1 + g.next(5)) + [0, 31, 31][g.next(3) as usize], g.next(2) == 0)];
            let _ = c;
            e.sort();
            e.into_iter().map(|x| Some(if x.0 >= room { (room, false) } else { x })).collect()
        };
        for c in chunk_counts(thorough, seed) {
            for _ in 0..if thorough { 4 } else { 1 } {
                let ends = m(&mut g, c, 32 * ((1 << 53) - c) - 1);
                l.push(MidR { c, low: 0, high: 0, ends });
            }
        }
        for high in if thorough { 1..=8u32 } else { 1..=3u32 } {
            for lowv in 0..13u64 {
                let c = ((1u64 << high) - 1) << 4 | lowv;
                let ends = m(&mut g, c, 32 * (16 - lowv) - 1);
                l.push(MidR { c, low: 4, high, ends });
            }
        }
        for k in l {
            let (acc, form) = (acc.clone(), form.clone());
            v.push(job(format!("mid-stream {:?}", k), move |jr| {
                if *form.lock().unwrap() != Some(true) {
                    jr.notes.push("skipped: the hasher's state does not have the expected form".into());
                    jr.ok();
                    return Ok(());
                }
                check_mid(p, &acc, &k, jr)
            }));
        }
    }
    (pre, v)
}
