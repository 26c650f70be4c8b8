//! C05, C06, C14: the incremental hasher against the tree specification, from
//! the start of a stream and from states in the middle of one.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::spec::{self, Msg, Node};
use crate::summ::Acc;
use crate::term::*;
use crate::tree::{set_plat, Plat, PLATS};

/// A piece of the tree: complete subtrees of which only the hash is known, and
/// chunks.
#[derive(Clone)]
pub enum Piece {
    Known(Vec<T>),
    Chunk(Node),
}
impl Piece {
    pub fn cv(&self) -> Vec<T> {
        match self {
            Piece::Known(v) => v.clone(),
            Piece::Chunk(n) => n.cv(),
        }
    }
}
/// The root of the tree over chunks `xs[0].0 .. end`: the left subtree is the
/// largest power of two of chunks that leaves something on the right. Pieces
/// are aligned complete subtrees, so the cut is always between two of them.
pub fn fold(key: &[T], mode: T, xs: &[(u64, Piece)], end: u64) -> Result<Piece, String> {
    if xs.len() == 1 {
        return Ok(xs[0].1.clone());
    }
    let cut = xs[0].0 + oracle::left_chunks(end - xs[0].0);
    let at = xs.iter().position(|x| x.0 == cut).ok_or("misaligned pieces")?;
    let l = fold(key, mode, &xs[..at], cut)?.cv();
    let r = fold(key, mode, &xs[at..], end)?.cv();
    Ok(Piece::Chunk(spec::parent_node(key, mode, &l, &r)))
}

/// The state of the stream before the first write.
#[derive(Clone)]
pub struct Base {
    pub key: Vec<T>,
    pub mode: T,
    /// complete subtrees: (first chunk, hash), and the chunks they cover
    pub known: Vec<(u64, Vec<T>)>,
    pub chunks: u64,
    /// stream position of the current chunk
    pub off: T,
    /// current chunk: chaining value, whole blocks compressed, bytes buffered
    pub cv: Vec<T>,
    pub done: u64,
    pub buffered: T,
    pub arr: u32,
    /// see Msg
    pub alt: Option<(u32, u64, T)>,
}
impl Base {
    /// Root of everything up to byte 64*e + r of the current chunk.
    pub fn root(&self, at: Option<(u64, T)>) -> Result<Node, String> {
        let mut xs: Vec<(u64, Piece)> = self.known.iter().map(|(s, v)| (*s, Piece::Known(v.clone()))).collect();
        let mut end = self.chunks;
        if let Some((e, r)) = at {
            let m = Msg { alt: self.alt, ..Msg::new(self.arr, e + 1, r) };
            for j in 0..e / 32 + 1 {
                let part = m.part(32 * j, (32 * (j + 1)).min(e + 1));
                let off = addc(self.off, 2048 * j);
                let n = if j == 0 && self.done > 0 {
                    let mut cv = self.cv.clone();
                    let mut node = None;
                    for b in self.done..part.blocks {
                        let (ws, bl) = part.words(b);
                        let last = b + 1 == part.blocks;
                        let f = if last { or2(self.mode, c(oracle::CHUNK_END as u128, 32)) } else { self.mode };
                        let n = Node { cv: cv.clone(), m: ws, blen: bl, off, flags: f };
                        cv = n.cv();
                        node = Some(n);
                    }
                    node.ok_or("empty chunk")?
                } else {
                    spec::chunk_node(&self.key, self.mode, off, &part)
                };
                xs.push((self.chunks + j, Piece::Chunk(n)));
                end = self.chunks + j + 1;
            }
        }
        match fold(&self.key, self.mode, &xs, end)? {
            Piece::Chunk(n) => Ok(n),
            _ => Err("single known subtree".into()),
        }
    }
    /// Bytes of the current chunk so far.
    pub fn have(&self) -> T {
        addc(self.buffered, 64 * self.done)
    }
}

/// The position after a write: block number in the stream from the current
/// chunk on and whether that block is full (64 bytes, otherwise 1..63), or an
/// empty write.
pub type Ends = Vec<Option<(u64, bool)>>;

pub struct Writes {
    pub lens: Vec<T>,
    pub total: T,
    pub ats: Vec<Option<(u64, T)>>,
    pub assume: Vec<T>,
}
pub fn writes(b: &Base, ends: &Ends) -> Writes {
    let mut w = Writes { lens: vec![], total: c64(0), ats: vec![], assume: vec![] };
    let mut at: Option<(u64, T)> = if cst(b.buffered) == Some(0) { None } else { Some((b.done, b.buffered)) };
    let mut pos = b.have();
    for (i, e) in ends.iter().enumerate() {
        match e {
            None => w.lens.push(c64(0)),
            Some((e, full)) => {
                let r = if *full { c64(64) } else { var_r(&format!("r{}", i), 64, 1, 63, 0, false) };
                if let Some((pe, pr)) = at {
                    if pe == *e {
                        w.assume.push(ule(pr, r));
                    }
                }
                let p = addc(r, 64 * e);
                w.lens.push(sub(p, pos));
                pos = p;
                at = Some((*e, r));
            }
        }
        w.ats.push(at);
    }
    w.total = sub(pos, b.have());
    w
}

pub fn start_of(mode: u8, akey: u32, amsg: u32) -> Base {
    let (key, fl) = spec::mode_key(mode, &arr_words(akey, 0, 8, 4));
    Base { cv: key.clone(), key, mode: fl, known: vec![], chunks: 0, off: c64(0), done: 0, buffered: c64(0), arr: amsg, alt: None }
}

pub fn eval_bytes(e: &RandEnv, ws: &[T]) -> Vec<u8> {
    let mut ev = Eval::new(e);
    ws.iter().flat_map(|x| (0..w(*x) / 8).map(|i| (ev.get(*x) >> (8 * i)) as u8).collect::<Vec<u8>>()).collect()
}
pub fn u64s(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// Common tail: check every path's outputs.
pub struct Run<'a> {
    pub f: &'static str,
    pub what: String,
    /// words (all of one width) expected at (object, offset)
    pub want: Vec<(ObjId, u64, Vec<T>)>,
    pub dom: Vec<T>,
    pub mk: &'a dyn Fn(&RandEnv) -> Replay,
    /// only how paths end, not what they compute
    pub ends_only: bool,
}
pub fn judge(x: &mut Exec, st: &State, args: Vec<V>, r: &Run, jr: &mut Jr) -> Result<(), String> {
    let before = x.stats.paths;
    let paths = x.call_all(st, r.f, args)?;
    let _ = before;
    jr.absorb(x);
    if crate::ct::on() {
        return crate::ct::judge(x, &paths, r.mk, jr);
    }
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            let mut rp = (r.mk)(&e);
            if let End::Bad("feature", m) = &pa.end {
                // noticed natively even where the host has the feature
                if let Some((f, _)) = m.split_once(" needs CPU feature ") {
                    rp.env.push(("VX_TRAP".into(), f.to_string()));
                }
            }
            jr.fail(s, Some(rp));
            continue;
        }
        if r.ends_only {
            jr.ok();
            continue;
        }
        let mut got = vec![];
        let mut want = vec![];
        let mut unset = None;
        for (o, off, ws) in &r.want {
            match read_words(x, &mut pa.st, *o, *off, ws.len(), w(ws[0])) {
                Ok(v) => got.extend(v),
                Err(e) if e.contains("uninit") => unset = Some(e),
                Err(e) => return Err(e),
            }
            want.extend(ws);
        }
        if unset.is_some() {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            jr.fail(format!("{}: output bytes left unset", r.what), Some((r.mk)(&e)));
            continue;
        }
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => jr.fail(format!("{}: result differs from the tree hash", r.what), Some((r.mk)(&e))),
            Verdict::Unknown(s) => jr.err(s),
        }
    }
    complete(jr, &r.dom, &pcs);
    jr.sample(format!("{}: {} paths", r.what, pcs.len()));
    Ok(())
}

// ------------------------------------------------------------ from the start

#[derive(Clone, Debug)]
pub struct Api {
    pub mode: u8,
    pub plat: Plat,
    pub ends: Ends,
    /// through io::Write
    pub via: bool,
    /// read the extended output this many times instead of finalizing
    pub xof: Option<u64>,
}
pub fn check_api(p: &'static Program, acc: &Acc, k: &Api, ends_only: bool, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, k.plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = start_of(k.mode, akey, amsg);
    let ws = writes(&b, &k.ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let nk = k.ends.len() as u64;
    let at = ws.ats.last().copied().flatten();
    let node = match at {
        Some(_) => b.root(at)?,
        None => spec::chunk_node(&b.key, b.mode, c64(0), &Msg::new(amsg, 1, c64(0))),
    };
    let mut args = vec![vt(c(k.mode as u128, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(nk))];
    let want: Vec<T>;
    let out;
    let f = match k.xof {
        None => {
            out = x.new_obj(&mut st, "out", 32, 1);
            args.extend([vt(c(k.via as u128, 8)), ptr(out)]);
            want = node.root(c64(0))[..8].to_vec();
            "hx_updates"
        }
        Some(n) => {
            out = x.new_obj(&mut st, "out", 64 * n, 1);
            args.extend([ptr(out), vt(c64(n))]);
            want = (0..n).flat_map(|i| node.root(c64(64 * i))).collect();
            "hx_updates_xof"
        }
    };
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let total: u64 = ls.iter().sum();
        let kb = env_bytes(e, akey, 0, 32);
        let mb = env_bytes(e, amsg, 0, total as usize);
        let ka: [u8; 32] = kb.clone().try_into().unwrap();
        let n = k.xof.map_or(32, |n| 64 * n as usize);
        let exp = oracle::hash(k.mode, &ka, &mb, n);
        let mut args = vec![Arg::Int(k.mode as u64), Arg::In(kb), Arg::In(mb), Arg::In(u64s(&ls)), Arg::Int(nk)];
        let i = match k.xof {
            None => {
                args.extend([Arg::Int(k.via as u64), Arg::Out(32)]);
                6
            }
            Some(b) => {
                args.extend([Arg::Out(n), Arg::Int(b)]);
                5
            }
        };
        Replay { lib: k.plat.lib(), func: f.into(), args, expect: vec![(i, exp)], env: vec![k.plat.env()], odd: vec![1, 2, i as usize], ..Default::default() }
    };
    let r = Run { f, what: format!("{:?}", k), want: vec![(out, 0, want)], dom: ws.assume.clone(), mk: &mk, ends_only };
    judge(&mut x, &st, args, &r, jr)
}

// ------------------------------------------------------------ observing

/// Finalizing in between, and a clone that goes on differently: positions
/// after the common part, and after each continuation.
#[derive(Clone, Debug)]
pub struct Obs {
    pub mode: u8,
    pub plat: Plat,
    pub ends: [Option<Pos>; 3],
}
pub fn check_obs(p: &'static Program, acc: &Acc, k: &Obs, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, k.plat)?;
    let (akey, amsg, aalt) = (new_arr("key", true), new_arr("message", true), new_arr("other", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = start_of(k.mode, akey, amsg);
    let pos = |i: usize| -> (Option<(u64, T)>, T) {
        match k.ends[i] {
            None => (None, c64(0)),
            Some((e, full)) => {
                let r = if full { c64(64) } else { var_r(&format!("r{}", i), 64, 1, 63, 0, false) };
                (Some((e, r)), addc(r, 64 * e))
            }
        }
    };
    let (at0, p0) = pos(0);
    let mut ats = vec![at0];
    let mut ps = vec![p0];
    let mut dom = vec![];
    for i in 1..3 {
        let (at, q) = pos(i);
        match (at0, at) {
            (_, None) => {
                ats.push(at0);
                ps.push(p0);
            }
            (Some((a, ra)), Some((e, r))) => {
                if a > e {
                    return Err("positions".into());
                }
                if a == e {
                    dom.push(ule(ra, r));
                }
                ats.push(at);
                ps.push(q);
            }
            (None, Some(_)) => {
                ats.push(at);
                ps.push(q);
            }
        }
    }
    for a in &dom {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let lens = [p0, sub(ps[1], p0), sub(ps[2], p0)];
    let oa = x.arr_obj(&mut st, "message", amsg, c64(0), p0, 1);
    let ob = x.arr_obj(&mut st, "first continuation", amsg, p0, lens[1], 1);
    let oc = x.arr_obj(&mut st, "second continuation", aalt, p0, lens[2], 1);
    let out = x.new_obj(&mut st, "out", 7 * 32, 1);
    let args = vec![
        vt(c(k.mode as u128, 8)),
        ptr(key),
        ptr(oa),
        vt(lens[0]),
        ptr(ob),
        vt(lens[1]),
        ptr(oc),
        vt(lens[2]),
        ptr(out),
    ];
    let empty = spec::chunk_node(&b.key, b.mode, c64(0), &Msg::new(amsg, 1, c64(0)));
    let root = |b: &Base, at: Option<(u64, T)>| -> Result<Vec<T>, String> {
        let n = match at {
            None => empty.clone(),
            _ => b.root(at)?,
        };
        Ok(n.root(c64(0))[..8].to_vec())
    };
    let mut b2 = b.clone();
    let (cut_b, cut_r) = at0.unwrap_or((0, c64(0)));
    b2.alt = Some((aalt, cut_b, cut_r));
    let (r0, r1, r2) = (root(&b, ats[0])?, root(&b, ats[1])?, root(&b2, ats[2])?);
    let order = [&r0, &r0, &r0, &r1, &r2, &r1, &r1];
    let want: Vec<(ObjId, u64, Vec<T>)> = order.iter().enumerate().map(|(i, r)| (out, 32 * i as u64, (*r).clone())).collect();
    let mk = |e: &RandEnv| -> Replay {
        let n: Vec<u64> = lens.iter().map(|l| env_var(e, *l)).collect();
        let at = n[0];
        let args = vec![
            Arg::Int(k.mode as u64),
            Arg::In(env_bytes(e, akey, 0, 32)),
            Arg::In(env_bytes(e, amsg, 0, n[0] as usize)),
            Arg::Int(n[0]),
            Arg::In(env_bytes(e, amsg, at, n[1] as usize)),
            Arg::Int(n[1]),
            Arg::In(env_bytes(e, aalt, at, n[2] as usize)),
            Arg::Int(n[2]),
            Arg::Out(7 * 32),
        ];
        let exp: Vec<u8> = order.iter().flat_map(|r| eval_bytes(e, r)).collect();
        Replay { lib: k.plat.lib(), func: "hx_observe".into(), args, expect: vec![(8, exp)], env: vec![k.plat.env()], ..Default::default() }
    };
    let r = Run { f: "hx_observe", what: format!("{:?}", k), want: want.clone(), dom, mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}
pub fn obs_jobs(p: &'static Program, acc: &Acc, thorough: bool, seed: u64) -> Vec<Job> {
    let mut v = vec![];
    let firsts: &[Option<Pos>] = &[None, Some((0, false)), Some((0, true)), Some((5, false)), Some((31, false)), Some((31, true)), Some((32, false)), Some((63, true)), Some((64, false)), Some((100, true)), Some((127, true)), Some((130, false)), Some((255, true)), Some((256, false))];
    let mut g = Lcg(seed ^ 0x66);
    let mut n = 0usize;
    for a in firsts {
        let at = a.unwrap_or((0, false));
        let mut nexts = vec![None, *a];
        for d in [0u64, 1, 31, 32, 64] {
            for full in [false, true] {
                let q = (at.0 + d, full);
                if q > at {
                    nexts.push(Some(q));
                }
            }
        }
        if a.is_none() {
            nexts.remove(1);
        }
        let reps = if thorough { nexts.len() } else { 3 };
        for i in 0..nexts.len() {
            for j in 0..reps {
                let (i2, j2) = (i, if thorough { j } else { g.next(nexts.len() as u64) as usize });
                n += 1;
                v.push(Obs { mode: (n % 3) as u8, plat: PLATS[n / 3 % 3], ends: [*a, nexts[i2], nexts[j2]] });
            }
        }
    }
    v.into_iter()
        .map(|k| {
            let acc = acc.clone();
            job(format!("observe {:?}", k), move |jr| check_obs(p, &acc, &k, jr))
        })
        .collect()
}

// ------------------------------------------------------------ mid-stream

#[derive(Clone, Debug)]
pub struct Mid {
    pub plat: Plat,
    /// whole chunks before the current one (a representative, if `high` > 0)
    pub c: u64,
    /// low bits of c that are concrete, and how many bits are set above them
    /// (0: c itself is concrete)
    pub low: u32,
    pub high: u32,
    /// blocks compressed in the current chunk (which then has 1..64 buffered
    /// bytes), or nothing in it
    pub pend: Option<(u64, bool)>,
    pub ends: Ends,
}
/// First chunks of the complete subtrees the hasher keeps: one for each set
/// bit; with an empty current chunk the last chunk has not been merged yet.
pub fn stack_starts(c: u64, pend: bool) -> Vec<u64> {
    let n = if pend { c } else { c - 1 };
    let mut v = vec![];
    let mut s = 0;
    for b in (0..64).rev() {
        if n >> b & 1 == 1 {
            v.push(s);
            s += 1 << b;
        }
    }
    if !pend {
        v.push(s);
    }
    v
}
pub fn check_mid(p: &'static Program, acc: &Acc, k: &Mid, ends_only: bool, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, k.plat)?;
    let mut dom = vec![];
    let off = if k.high == 0 {
        c64(k.c * 2048)
    } else {
        let h = var_r("high", 64, 1, (1u128 << (53 - k.low)) - 1, 0, false);
        let a = eq(popcnt(h), c64(k.high as u64));
        dom.push(a);
        // room for the new chunks below 2^64
        addc(shl(h, c64(k.low as u64 + 11)), (k.c & ((1 << k.low) - 1)) * 2048)
    };
    let (akey, acv, astk, amsg) = (new_arr("key", true), new_arr("cv", true), new_arr("stack", true), new_arr("data", true));
    let key = arr_words(akey, 0, 8, 4);
    let flags = var_r("mode", 8, 0, 48, 4, false);
    let starts = stack_starts(k.c, k.pend.is_some());
    let known: Vec<(u64, Vec<T>)> = starts.iter().enumerate().map(|(i, s)| (*s, arr_words(astk, 32 * i as u64, 8, 4))).collect();
    let done = k.pend.map_or(0, |x| x.0);
    let buffered = match k.pend {
        None => c64(0),
        Some((_, true)) => c64(64),
        _ => var_r("buffered", 64, 1, 63, 0, false),
    };
    let cv = if done > 0 { arr_words(acv, 0, 8, 4) } else { key.clone() };
    let b = Base { key: key.clone(), mode: zext(flags, 32), known, chunks: k.c, off, cv: cv.clone(), done, buffered, arr: amsg, alt: None };
    let ws = writes(&b, &k.ends);
    dom.extend(ws.assume.iter().copied());
    for a in &dom {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let n = starts.len() as u64;
    let stack = x.arr_obj(&mut st, "stack", astk, c64(0), c64(32 * n), 1);
    let mut kcv = key.clone();
    kcv.extend(cv);
    let kobj = obj_words(&x, &mut st, "key and cv", &kcv, 4);
    set_ro(&mut st, kobj);
    let bufb: Vec<T> = (0..64u64)
        .map(|i| ite(ult(c64(i), buffered), arr(amsg, c64(64 * done + i), 1), c(0, 8)))
        .collect();
    let buf = x.bytes_obj(&mut st, "buf", &bufb, 1);
    set_ro(&mut st, buf);
    let msg = x.arr_obj(&mut st, "data", amsg, b.have(), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let out = x.new_obj(&mut st, "out", 64, 1);
    let args = vec![
        ptr(stack),
        vt(c64(n)),
        ptr(kobj),
        vt(off),
        vt(c64(64 * done)),
        ptr(buf),
        vt(trunc(buffered, 8)),
        vt(flags),
        ptr(msg),
        ptr(lens),
        ptr(out),
    ];
    let mut want = vec![];
    for i in 0..2 {
        want.push((out, 32 * i as u64, b.root(ws.ats[i])?.root(c64(0))[..8].to_vec()));
    }
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let args = vec![
            Arg::In(env_bytes(e, astk, 0, 32 * n as usize)),
            Arg::Int(n),
            Arg::In(eval_bytes(e, &kcv)),
            Arg::Int(env_var(e, off)),
            Arg::Int(64 * done),
            Arg::In(eval_bytes(e, &bufb)),
            Arg::Int(env_var(e, buffered)),
            Arg::Int(env_var(e, flags)),
            Arg::In(env_bytes(e, amsg, env_var(e, b.have()), ls.iter().sum::<u64>() as usize)),
            Arg::In(u64s(&ls)),
            Arg::Out(64),
        ];
        let exp: Vec<u8> = want.iter().flat_map(|x| eval_bytes(e, &x.2)).collect();
        Replay { lib: k.plat.lib(), func: "hx_mid".into(), args, expect: vec![(10, exp)], env: vec![k.plat.env()], odd: vec![8, 10], ..Default::default() }
    };
    let r = Run { f: "hx_mid", what: format!("{:?}", k), want: want.clone(), dom, mk: &mk, ends_only };
    judge(&mut x, &st, args, &r, jr)
}

/// Does the hasher keep its state the way the mid-stream jobs build it? Shown
/// by comparing the states that real write sequences lead to.
pub fn check_form(p: &'static Program, acc: &Acc, plat: Plat, ends: &Ends, jr: &mut Jr) -> Result<bool, String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = start_of(1, akey, amsg);
    let ws = writes(&b, ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let size = 53 * 32 + 8 + 64 + 16 + 64 + 16;
    let out = x.new_obj(&mut st, "out", size, 8);
    let args = vec![vt(c(1, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(ends.len() as u64)), ptr(out)];
    let paths = x.call_all(&st, "hx_parts", args)?;
    jr.absorb(&x);
    let (e, _) = ws.ats.last().copied().flatten().ok_or("empty")?;
    let r = sub(ws.total, c64(64 * e));
    for mut pa in paths {
        if !matches!(pa.end, End::Ret(_)) {
            return Ok(false);
        }
        let num = read_words(&mut x, &mut pa.st, out, 53 * 32, 1, 64)?[0];
        let off = read_words(&mut x, &mut pa.st, out, 53 * 32 + 72, 1, 64)?[0];
        let (num, off) = match (cst(num), cst(off)) {
            (Some(a), Some(b)) => (a as u64, b as u64),
            _ => return Ok(false),
        };
        let ch = off / 2048;
        let here = e / 32;
        // the last chunk may have been hashed already, if it was complete
        let pend = ch == here;
        if !pend && (ch != here + 1 || !x.implied(&mut pa.st, eq(r, c64(64))).map_err(|e| format!("{:?}", e))?) {
            return Ok(false);
        }
        let starts = stack_starts(ch, pend);
        if num != starts.len() as u64 {
            return Ok(false);
        }
        let mut want = vec![];
        let mut got = vec![];
        let full = Msg::new(amsg, e + 1, r);
        for (i, s) in starts.iter().enumerate() {
            let to = starts.get(i + 1).copied().unwrap_or(ch);
            let m = full.part(32 * s, (32 * to).min(e + 1));
            let m = if pend { m } else { Msg { last: c64(64), ..m } };
            want.extend(spec::tree_node(&b.key, b.mode, c64(2048 * s), &m).cv());
            got.extend(read_words(&mut x, &mut pa.st, out, 32 * i as u64, 8, 32)?);
        }
        let done = if pend { e % 32 } else { 0 };
        let mut cv = b.key.clone();
        want.extend(&cv);
        for blk in 0..done {
            let f = if blk == 0 { or2(b.mode, c(1, 32)) } else { b.mode };
            let (m, bl) = full.words(32 * here + blk);
            cv = spec::c32(&cv, &m, bl, c64(off), f)[..8].to_vec();
        }
        want.extend(&cv);
        let q = 53 * 32 + 8;
        got.extend(read_words(&mut x, &mut pa.st, out, q, 16, 32)?);
        want.extend([c64(64 * done), if pend { r } else { c64(0) }, c64(oracle::KEYED as u64)]);
        got.extend(read_words(&mut x, &mut pa.st, out, q + 72, 1, 64)?);
        got.extend(read_words(&mut x, &mut pa.st, out, q + 80 + 64, 2, 64)?);
        got.extend(read_words(&mut x, &mut pa.st, out, q + 80, 64, 8)?);
        for i in 0..64 {
            want.push(if pend { ite(ult(c64(i), r), arr(amsg, c64(64 * e + i), 1), c(0, 8)) } else { c(0, 8) });
        }
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(_) => return Ok(false),
            Verdict::Unknown(s) => return Err(s),
        }
    }
    check_pair(&mut x, &st, ["hx_pair", "hx_hasher_size"], key, msg, lens, ends.len() as u64, jr)
}
/// Is a hasher put together from its parts the same in every byte that both
/// have set? (Otherwise there is state the parts do not cover.)
pub fn check_pair(x: &mut Exec, st: &State, fs: [&'static str; 2], key: ObjId, msg: ObjId, lens: ObjId, k: u64, jr: &mut Jr) -> Result<bool, String> {
    if x.p.find(fs[0]).is_none() {
        return Ok(false);
    }
    let size = match x.call_all(st, fs[1], vec![])?.pop() {
        Some(Path { end: End::Ret(v), .. }) => v.t().ok().and_then(cst).ok_or("size")? as u64,
        _ => return Ok(false),
    };
    let mut st = st.clone();
    let a = x.new_obj(&mut st, "a", size, 64);
    let b = x.new_obj(&mut st, "b", size, 64);
    let args = vec![vt(c(1, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(k)), ptr(a), ptr(b)];
    for pa in x.call_all(&st, fs[0], args)? {
        if !matches!(pa.end, End::Ret(_)) {
            return Ok(false);
        }
        let (oa, ob) = (pa.st.mem[&a].clone(), pa.st.mem[&b].clone());
        let (mut u, mut v) = (vec![], vec![]);
        for i in 0..size as usize {
            match (oa.cells[i], ob.cells[i]) {
                (Cell::U, _) | (_, Cell::U) => {}
                (p, q) if p == q => {}
                (Cell::P(..), _) | (_, Cell::P(..)) => return Ok(false),
                (p, q) => {
                    u.push(cell_byte(p).map_err(|e| format!("{:?}", e))?);
                    v.push(cell_byte(q).map_err(|e| format!("{:?}", e))?);
                }
            }
        }
        match eqv::prove(&pa.st.pc, &u, &v, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(_) => return Ok(false),
            Verdict::Unknown(s) => return Err(s),
        }
    }
    Ok(true)
}

// ------------------------------------------------------------ job lists

#[derive(Clone)]
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self, n: u64) -> u64 {
        self.0 = eqv::mix(self.0.wrapping_add(0x9e3779b97f4a7c15));
        self.0 % n
    }
}
type Pos = (u64, bool);
/// Positions worth ending a write at: chunk `k`, near its start or its end.
fn positions(ks: &[u64], bs: &[Pos]) -> Vec<Pos> {
    ks.iter().flat_map(|k| bs.iter().map(move |b| (32 * k + b.0, b.1))).collect()
}
pub fn random_ends(g: &mut Lcg, m: usize, few: u64, many: u64) -> Ends {
    let mut es: Vec<Pos> = (0..m)
        .map(|_| {
            let k = if g.next(2) == 0 { g.next(few) } else { g.next(many) };
            (32 * k + [0, 1, 2, 15, 30, 31, 31, 31][g.next(8) as usize], g.next(2) == 0)
        })
        .collect();
    es.sort();
    es.into_iter().map(Some).collect()
}

pub fn api_list(thorough: bool, seed: u64) -> Vec<Api> {
    let mut v = vec![];
    let ks: &[u64] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33] } else { &[0, 1, 2, 3, 4, 7, 8, 9, 16, 17] };
    let bs: &[Pos] = if thorough {
        &[(0, false), (0, true), (1, false), (15, true), (30, true), (31, false), (31, true)]
    } else {
        &[(0, false), (0, true), (31, false), (31, true)]
    };
    let ps = positions(ks, bs);
    let mut n = 0usize;
    // one write
    for mode in 0..3u8 {
        for e in &ps {
            for via in [false, true] {
                n += 1;
                v.push(Api { mode, plat: PLATS[n % 3], ends: vec![Some(*e)], via, xof: None });
            }
        }
    }
    // nothing, and empty writes around something
    for mode in 0..3u8 {
        for plat in PLATS {
            v.push(Api { mode, plat, ends: vec![], via: false, xof: None });
            v.push(Api { mode, plat, ends: vec![None], via: true, xof: None });
            for e in [(0, false), (31, false), (31, true), (32, false), (63, true), (96, true)] {
                v.push(Api { mode, plat, ends: vec![None, Some(e), None, None], via: false, xof: None });
            }
        }
    }
    // two writes
    for (i, a) in ps.iter().enumerate() {
        for b in &ps[i..] {
            n += 1;
            let plats: Vec<Plat> = if thorough { PLATS.to_vec() } else { vec![PLATS[n % 3]] };
            for plat in plats {
                v.push(Api { mode: (n / 3 % 3) as u8, plat, ends: vec![Some(*a), Some(*b)], via: n % 5 == 0, xof: None });
            }
        }
    }
    // more writes
    let mut g = Lcg(seed);
    for i in 0..if thorough { 1500 } else { 200 } {
        let m = 3 + g.next(3) as usize;
        let mut ends = random_ends(&mut g, m, 5, 20);
        if g.next(4) == 0 {
            let at = g.next(m as u64) as usize;
            ends.insert(at, None);
        }
        v.push(Api { mode: (i % 3) as u8, plat: PLATS[g.next(3) as usize], ends, via: g.next(4) == 0, xof: None });
    }
    v
}

pub fn chunk_counts(thorough: bool, seed: u64) -> Vec<u64> {
    let mut cs: Vec<u64> = (0..if thorough { 66 } else { 34 }).collect();
    for j in 6..=53u32 {
        let b = 1u64 << j;
        for d in [-3i64, -2, -1, 0, 1, 2, 7] {
            let x = (b as i64 + d) as u64;
            let pick = thorough || j >= 52 || [-1, 0].contains(&d) || (j as i64 + d) % 5 == 0;
            if pick && x < 1 << 53 {
                cs.push(x);
            }
        }
    }
    let mut g = Lcg(seed ^ 0x55);
    for _ in 0..if thorough { 300 } else { 40 } {
        let bits = 1 + g.next(53);
        cs.push((g.next(1 << 53) >> (53 - bits)) | 1 << (bits - 1));
    }
    cs.sort();
    cs.dedup();
    cs
}
pub fn mid_list(thorough: bool, seed: u64) -> Vec<Mid> {
    let top = 1u64 << 53;
    let mut v = vec![];
    let mut n = 0usize;
    let mut g = Lcg(seed ^ 0x77);
    for c in chunk_counts(thorough, seed) {
        let pends = [None, Some((0, false)), Some((0, true)), Some((1 + g.next(30), g.next(2) == 0)), Some((31, false)), Some((31, true))];
        for pend in pends {
            if pend.is_none() && c < 2 {
                continue;
            }
            let d = pend.unwrap_or((0, false));
            let far = 32 * (4 + g.next(7));
            let rb = |g: &mut Lcg, a: u64, n: u64| (a + g.next(n), g.next(2) == 0);
            let mut es: Vec<Ends> = vec![
                vec![Some(d), Some((31, true))],
                vec![Some((31, true)), Some(rb(&mut g, 32, 32))],
                vec![Some((32 * (1 + g.next(3)) + 31, true)), Some(rb(&mut g, far, 32))],
                vec![Some((32 * (7 + g.next(11)) + [0, 31, 7][g.next(3) as usize], g.next(2) == 0)), None],
            ];
            if pend.is_some() {
                es.push(vec![None, Some(rb(&mut g, 31, 34))]);
                es.push(vec![Some(d), Some(d)]);
            }
            let keep = if thorough { es.len() } else { 2 };
            for i in 0..keep {
                n += 1;
                let mut e = if thorough { es[i].clone() } else { es[(n + i) % es.len()].clone() };
                // stay below 2^64 bytes in all
                let room = 32 * (top - c) - 1;
                for x in e.iter_mut().flatten() {
                    if x.0 >= room {
                        *x = (room, false);
                    }
                }
                let fl: Vec<Pos> = std::iter::once(d).chain(e.iter().flatten().copied()).collect();
                if fl.windows(2).any(|w| w[0] > w[1]) {
                    continue;
                }
                v.push(Mid { plat: PLATS[n % 3], c, low: 0, high: 0, pend, ends: e });
            }
        }
    }
    // any chunk count with the given low bits and number of high ones
    let m = if thorough { 5 } else { 4 };
    for high in if thorough { 1..=8u32 } else { 1..=3u32 } {
        for lowv in 0..(1u64 << m) - 3 {
            for pend in [None, Some((0, false)), Some((31, true))] {
                if pend.is_none() && lowv == 0 {
                    continue;
                }
                n += 1;
                let room = 32 * ((1 << m) - lowv) - 1;
                let ends = vec![
                    Some(((32 + g.next(34)).min(room - 33), g.next(2) == 0)),
                    Some(((66 + g.next(200)).min(room - 1), g.next(2) == 0)),
                ];
                let c = (((1u64 << high) - 1) << m) | lowv;
                v.push(Mid { plat: PLATS[n % 3], c, low: m, high, pend, ends });
            }
        }
    }
    v
}

pub fn api_jobs(p: &'static Program, acc: &Acc, l: Vec<Api>, ends_only: bool) -> Vec<Job> {
    l.into_iter()
        .map(|k| {
            let acc = acc.clone();
            job(format!("writes {:?}", k), move |jr| check_api(p, &acc, &k, ends_only, jr))
        })
        .collect()
}
pub fn mid_jobs(p: &'static Program, acc: &Acc, l: Vec<Mid>, form: &Form, ends_only: bool) -> Vec<Job> {
    if p.find("hx_mid").is_none() {
        return vec![];
    }
    l.into_iter()
        .map(|k| {
            let (acc, form) = (acc.clone(), form.clone());
            job(format!("mid-stream {:?}", k), move |jr| {
                if *form.lock().unwrap() != Some(true) {
                    jr.notes.push("skipped: the hasher's state does not have the expected form".into());
                    jr.ok();
                    return Ok(());
                }
                check_mid(p, &acc, &k, ends_only, jr)
            })
        })
        .collect()
}
// ------------------------------------------------------------ the C hasher

/// The shorter lists, on the given platforms.
pub fn c_lists(plats: &[Plat], thorough: bool, seed: u64) -> (Vec<Api>, Vec<Mid>) {
    let mut a = api_list(thorough, seed ^ 0xc);
    let mut m = mid_list(thorough, seed ^ 0xc);
    m.retain(|x| x.high == 0);
    if !thorough {
        // (3 and 5: coprime to the periods of the lists)
        let mut n = 0;
        a.retain(|_| (n += 1, n % 3 != 0).1);
        m.retain(|x| (n += 1, x.c < 5 || x.c + 3 > 1 << 53 || n % 5 < 2).1);
    }
    for (i, x) in a.iter_mut().enumerate() {
        x.plat = plats[i % plats.len()];
    }
    for (i, x) in m.iter_mut().enumerate() {
        x.plat = plats[(i / 2) % plats.len()];
    }
    (a, m)
}
pub type Form = std::sync::Arc<std::sync::Mutex<Option<bool>>>;
/// Jobs that establish the form of mid-stream states; run before mid_jobs.
pub fn form_jobs(p: &'static Program, acc: &Acc, form: &Form) -> Vec<Job> {
    form_jobs_on(p, acc, form, &PLATS)
}
pub fn form_jobs_on(p: &'static Program, acc: &Acc, form: &Form, plats: &[Plat]) -> Vec<Job> {
    if p.find("hx_parts").is_none() {
        return vec![];
    }
    let mut v = vec![];
    let mut g = Lcg(3);
    for i in 0..48u64 {
        let (acc, form) = (acc.clone(), form.clone());
        let m = 1 + g.next(3) as usize;
        let ends = random_ends(&mut g, m, 5, 9);
        let plat = plats[i as usize % plats.len()];
        v.push(job(format!("state after {:?} {:?}", plat, ends), move |jr| {
            let ok = check_form(p, &acc, plat, &ends, jr).unwrap_or_else(|e| {
                jr.notes.push(e);
                false
            });
            if !ok {
                jr.notes.push(format!("state after {:?} has another form", ends));
            }
            let mut f = form.lock().unwrap();
            *f = Some(ok && f.unwrap_or(true));
            Ok(())
        }));
    }
    v
}
