//! C04, C07: the one-shot functions against the tree specification.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::spec::{self, Msg};
use crate::summ::{self, Acc};
use crate::term::*;

/// What the CPU supports.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Plat {
    None,
    Sse41,
    Avx2,
    /// the C implementation as configured at compile time
    C(crate::irb::Cc),
}
pub const PLATS: [Plat; 3] = [Plat::None, Plat::Sse41, Plat::Avx2];
impl Plat {
    pub fn env(self) -> (String, String) {
        ("BAOKESHED_VERIF_PLATFORM".into(), self.num().to_string())
    }
    fn num(self) -> usize {
        match self {
            Plat::None => 0,
            Plat::Sse41 => 1,
            Plat::Avx2 => 2,
            Plat::C(_) => 9,
        }
    }
    pub fn degree(self) -> u64 {
        [1, 4, 8][self.num().min(2)]
    }
    /// library with the real code, for replays
    pub fn lib(self) -> String {
        match self {
            Plat::C(cc) => format!("cx:{}", cc.name()),
            _ => "hx".into(),
        }
    }
}
/// x86 features in order of implication (each needs the ones before it).
pub const CHAIN: [(&str, &str); 6] = [
    ("sse3", "hx_feat_sse3"),
    ("ssse3", "hx_feat_ssse3"),
    ("sse4.1", "hx_feat_sse41"),
    ("sse4.2", "hx_feat_sse42"),
    ("avx", "hx_feat_avx"),
    ("avx2", "hx_feat_avx2"),
];
pub const FREG: u32 = 9000;

fn s_feature(x: &mut Exec, st: &mut State, _: &str, a: &[V]) -> R<V> {
    let _ = x;
    let bit = cst(a[0].t()?).ok_or(Stop::Unsup("feature number".into()))? as u16;
    match st.regs.get(&FREG) {
        Some(f) if bit < 128 => Ok(vt(ext(*f, bit, 1))),
        _ => Err(Stop::Unsup("feature detection".into())),
    }
}
pub fn feature_stub(x: &mut Exec) {
    x.stub(|n| n.contains("std_detect6detect5cache4test"), s_feature, "std_detect::cache::test (CPU features)");
}
/// Bit number of a feature in the standard library's detection cache.
pub fn feature_bit(p: &'static Program, f: &str) -> Result<u16, String> {
    let mut x = Exec::new(p);
    feature_stub(&mut x);
    let mut st = x.state();
    let v = var("probe", 128);
    st.regs.insert(FREG, v);
    for pa in x.call_all(&st, f, vec![])? {
        if let End::Ret(V::T(t)) = pa.end {
            for b in 0..128u16 {
                if zext(ext(v, b, 1), 8) == t {
                    return Ok(b);
                }
            }
        }
    }
    Err(format!("cannot identify the feature of {}", f))
}
pub fn set_plat(x: &mut Exec, st: &mut State, pl: Plat) -> Result<(), String> {
    if let Plat::C(_) = pl {
        return Ok(());
    }
    feature_stub(x);
    let mut m: u128 = 0;
    let n = match pl {
        Plat::None => 0,
        Plat::Sse41 => 3,
        _ => 6,
    };
    for (_, f) in &CHAIN[..n] {
        m |= 1 << feature_bit(x.p, f)?;
    }
    st.regs.insert(FREG, c(m, 128));
    Ok(())
}

/// The message length on a path, as (blocks, length of the last block): the
/// path's model proposes it, the solver confirms it.
pub fn split_len(x: &mut Exec, st: &mut State, n: T) -> Result<(u64, T), String> {
    let v = match cst(n) {
        Some(v) => v as u64,
        None => st.model.eval(n) as u64,
    };
    let blocks = ((v + 63) / 64).max(1);
    let last = sub(n, c64(64 * (blocks - 1)));
    if v == 0 {
        if x.implied(st, eq(n, c64(0))).map_err(|e| format!("{:?}", e))? {
            return Ok((1, c64(0)));
        }
        return Err("path does not fix the number of blocks".into());
    }
    let inr = and2(ule(c64(1), last), ule(last, c64(64)));
    if !x.implied(st, inr).map_err(|e| format!("{:?}", e))? {
        return Err("path does not fix the number of blocks".into());
    }
    if v % 64 == 0 && x.implied(st, eq(last, c64(64))).map_err(|e| format!("{:?}", e))? {
        return Ok((blocks, c64(64)));
    }
    Ok((blocks, last))
}

#[derive(Clone, Copy, Debug)]
pub struct One {
    pub mode: u8,
    pub plat: Plat,
    /// number of chunks, 0 for the empty message
    pub k: u64,
    /// XOF reads, or None for the plain functions
    pub xof: Option<u64>,
}

/// Message lengths with k chunks: exactly full, and with any partial last one.
pub fn lens_of(k: u64) -> Vec<T> {
    let mut v = vec![c64(2048 * k)];
    if k > 0 {
        v.push(addc(zext(var_r("extra", 11, 1, 2047, 0, false), 64), 2048 * (k - 1)));
    }
    v
}

pub fn check_one(p: &'static Program, acc: &Acc, k: One, jr: &mut Jr) -> Result<(), String> {
    for n in lens_of(k.k) {
        check_len(p, acc, k, n, jr)?;
    }
    Ok(())
}
fn check_len(p: &'static Program, acc: &Acc, k: One, n: T, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, k.plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), n, 1);
    let mut args = vec![vt(c(k.mode as u128, 8)), ptr(key), ptr(msg), vt(n)];
    let (out, tail);
    let f = match k.xof {
        None => {
            out = x.new_obj(&mut st, "out", 32, 1);
            tail = out;
            args.push(ptr(out));
            "hx_oneshot"
        }
        Some(b) => {
            out = x.new_obj(&mut st, "out", 64 * b, 1);
            tail = x.new_obj(&mut st, "tail", 32, 1);
            args.extend([ptr(out), vt(c64(b)), ptr(tail)]);
            "hx_oneshot_xof"
        }
    };
    let paths = x.call_all(&st, f, args)?;
    jr.absorb(&x);
    let mk_replay = |e: &RandEnv| -> Replay {
        let len = env_var(e, n);
        let kb = env_bytes(e, akey, 0, 32);
        let mb = env_bytes(e, amsg, 0, len as usize);
        let ka: [u8; 32] = kb.clone().try_into().unwrap();
        let mut args = vec![Arg::Int(k.mode as u64), Arg::In(kb), Arg::In(mb.clone()), Arg::Int(len)];
        let expect = match k.xof {
            None => {
                args.push(Arg::Out(32));
                vec![(4, oracle::hash(k.mode, &ka, &mb, 32))]
            }
            Some(b) => {
                let all = oracle::hash(k.mode, &ka, &mb, 64 * b as usize + 32);
                args.extend([Arg::Out(64 * b as usize), Arg::Int(b), Arg::Out(32)]);
                vec![(4, all[..64 * b as usize].to_vec()), (6, all[64 * b as usize..].to_vec())]
            }
        };
        Replay { lib: "hx".into(), func: f.into(), args, expect, env: vec![k.plat.env()], odd: vec![1, 2, 4], ..Default::default() }
    };
    if crate::ct::on() {
        return crate::ct::judge(&mut x, &paths, &mk_replay, jr);
    }
    let (kt, fl) = spec::mode_key(k.mode, &arr_words(akey, 0, 8, 4));
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            jr.fail(s, Some(mk_replay(&e)));
            continue;
        }
        let (blocks, last) = match split_len(&mut x, &mut pa.st, n) {
            Ok(r) => r,
            Err(e) => {
                // not one block count: split the path here
                jr.err(e);
                continue;
            }
        };
        let node = spec::tree_node(&kt, fl, c64(0), &Msg::new(amsg, blocks, last));
        let mut want = vec![];
        let mut got = vec![];
        match k.xof {
            None => {
                want.extend(&node.root(c64(0))[..8]);
                got.extend(read_words(&mut x, &mut pa.st, out, 0, 8, 32)?);
            }
            Some(b) => {
                for i in 0..b {
                    want.extend(node.root(c64(64 * i)));
                }
                want.extend(&node.root(c64(64 * b))[..8]);
                got.extend(read_words(&mut x, &mut pa.st, out, 0, 16 * b as usize, 32)?);
                got.extend(read_words(&mut x, &mut pa.st, tail, 0, 8, 32)?);
            }
        }
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => jr.fail(format!("length {}: output differs from the tree hash", env_var(&e, n)), Some(mk_replay(&e))),
            Verdict::Unknown(s) => jr.err(s),
        }
    }
    complete(jr, &[], &pcs);
    jr.sample(format!("{} chunks, every length, key and message symbolic: {} paths", k.k, pcs.len()));
    Ok(())
}

pub fn one_jobs(p: &'static Program, acc: &Acc, xof: Option<u64>, ks: &dyn Fn(u8, Plat) -> Vec<u64>) -> Vec<Job> {
    let mut v = vec![];
    for mode in 0..3u8 {
        for plat in PLATS {
            for k in ks(mode, plat) {
                let acc = acc.clone();
                let o = One { mode, plat, k, xof };
                v.push(job(format!("one-shot {:?}", o), move |jr| check_one(p, &acc, o, jr)));
            }
        }
    }
    v
}

/// Every combination of CPU features at once: the answers of the detection
/// are symbolic (closed under what each feature implies), no function compiled
/// for a feature is entered unless the path has established the feature, and
/// the result is the tree hash on all of them.
pub fn check_cpu(p: &'static Program, acc: &Acc, mode: u8, ends: &crate::inc::Ends, api: u8, jr: &mut Jr) -> Result<(), String> {
    use crate::inc;
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    feature_stub(&mut x);
    let cpu = var("cpu", 128);
    st.regs.insert(FREG, cpu);
    let mut fm: FxMap<&'static str, T> = Default::default();
    for (n, f) in CHAIN.iter().chain(&MORE) {
        fm.insert(*n, ext(cpu, feature_bit(p, f)?, 1));
    }
    let mut dom = vec![];
    let mut need = |a: &str, b: &str| dom.push(or2(not(fm[a]), fm[b]));
    for i in 1..CHAIN.len() {
        need(CHAIN[i].0, CHAIN[i - 1].0);
    }
    need("avx512f", "avx2");
    need("avx512vl", "avx512f");
    need("fma", "avx");
    x.features = Some(fm);
    for a in &dom {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let b = inc::start_of(mode, akey, amsg);
    let ws = inc::writes(&b, ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
        dom.push(*a);
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let at = ws.ats.last().copied().flatten();
    let node = match at {
        Some(_) => b.root(at)?,
        None => spec::chunk_node(&b.key, b.mode, c64(0), &Msg::new(amsg, 1, c64(0))),
    };
    let out = x.new_obj(&mut st, "out", 128, 1);
    let (f, args, want, oi): (&'static str, Vec<V>, Vec<T>, i32) = match api {
        0 => (
            "hx_oneshot",
            vec![vt(c(mode as u128, 8)), ptr(key), ptr(msg), vt(ws.total), ptr(out)],
            node.root(c64(0))[..8].to_vec(),
            4,
        ),
        1 => (
            "hx_updates",
            vec![vt(c(mode as u128, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(ends.len() as u64)), vt(c(0, 8)), ptr(out)],
            node.root(c64(0))[..8].to_vec(),
            6,
        ),
        _ => (
            "hx_updates_xof",
            vec![vt(c(mode as u128, 8)), ptr(key), ptr(msg), ptr(lens), vt(c64(ends.len() as u64)), ptr(out), vt(c64(2))],
            node.root(c64(0)).into_iter().chain(node.root(c64(64))).collect(),
            5,
        ),
    };
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let total: u64 = ls.iter().sum();
        let mut v = vec![Arg::Int(mode as u64), Arg::In(env_bytes(e, akey, 0, 32)), Arg::In(env_bytes(e, amsg, 0, total as usize))];
        let n = 4 * want.len();
        match api {
            0 => v.extend([Arg::Int(total), Arg::Out(n)]),
            1 => v.extend([Arg::In(inc::u64s(&ls)), Arg::Int(ends.len() as u64), Arg::Int(0), Arg::Out(n)]),
            _ => v.extend([Arg::In(inc::u64s(&ls)), Arg::Int(ends.len() as u64), Arg::Out(n), Arg::Int(2)]),
        }
        let mut ev = Eval::new(e);
        let m = ev.get(cpu);
        let env = vec![("VX_CPU".to_string(), m.to_string())];
        Replay { lib: "hx".into(), func: f.into(), args: v, expect: vec![(oi, inc::eval_bytes(e, &want))], env, ..Default::default() }
    };
    let r = inc::Run { f, what: format!("any CPU, mode {} {:?}", mode, ends), want: vec![(out, 0, want.clone())], dom, mk: &mk, ends_only: false };
    inc::judge(&mut x, &st, args, &r, jr)
}
pub const MORE: [(&str, &str); 5] =
    [("avx512f", "hx_feat_avx512f"), ("avx512vl", "hx_feat_avx512vl"), ("fma", "hx_feat_fma"), ("bmi", "hx_feat_bmi1"), ("bmi2", "hx_feat_bmi2")];
pub fn cpu_jobs(p: &'static Program, acc: &Acc, thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let mut es: Vec<(u64, bool)> = vec![(0, false), (0, true), (1, false), (31, true), (32, false), (63, true), (100, false), (127, true), (200, false), (255, true), (256, false), (280, true), (550, false)];
    if thorough {
        es.extend((0..40).map(|i| (32 * i + 7, false)));
    }
    for mode in 0..3u8 {
        for e in &es {
            for api in 0..3u8 {
                let mut l = vec![vec![Some(*e)]];
                if api > 0 {
                    l.push(vec![Some((e.0 / 2, false)), Some((e.0 + 1, false))]);
                    l.push(vec![Some((e.0, false)), Some((e.0 + 33, true))]);
                }
                for ends in l {
                    let acc = acc.clone();
                    v.push(job(format!("any CPU mode {} {:?} api {}", mode, ends, api), move |jr| check_cpu(p, &acc, mode, &ends, api, jr)));
                }
            }
        }
        for api in 0..3u8 {
            let acc = acc.clone();
            v.push(job(format!("any CPU mode {} empty api {}", mode, api), move |jr| check_cpu(p, &acc, mode, &vec![None], api, jr)));
        }
    }
    v
}

/// Reads on an output and its clones, and from any position of the stream.
pub fn check_stream(p: &'static Program, acc: &Acc, mode: u8, plat: Plat, e: Option<(u64, bool)>, seek: bool, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    set_plat(&mut x, &mut st, plat)?;
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let (blocks, last) = match e {
        None => (1, c64(0)),
        Some((e, true)) => (e + 1, c64(64)),
        Some((e, false)) => (e + 1, var_r("r", 64, 1, 63, 0, false)),
    };
    let n = addc(last, 64 * (blocks - 1));
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), n, 1);
    let (kt, fl) = spec::mode_key(mode, &arr_words(akey, 0, 8, 4));
    let node = spec::tree_node(&kt, fl, c64(0), &Msg::new(amsg, blocks, last));
    let mut args = vec![vt(c(mode as u128, 8)), ptr(key), ptr(msg), vt(n)];
    let pos = shl(var_r("block number", 64, 0, (1u128 << 58) - 3, 0, false), c64(6));
    let at = |i: u64| node.root(addc(pos, 64 * i));
    let f;
    let mut want = vec![];
    if seek {
        f = "hx_seek";
        let out = x.new_obj(&mut st, "out", 128, 1);
        let tail = x.new_obj(&mut st, "tail", 64, 1);
        args.extend([vt(pos), ptr(out), ptr(tail)]);
        want.push((out, 0, at(0).into_iter().chain(at(1)).collect::<Vec<T>>()));
        want.push((tail, 0, at(1)[..8].iter().copied().chain(at(2)[..8].iter().copied()).collect()));
    } else {
        f = "hx_output_clone";
        let out = x.new_obj(&mut st, "out", 7 * 64, 1);
        args.push(ptr(out));
        let at = |i: u64| node.root(c64(64 * i));
        let mut v = vec![];
        for i in [0, 1, 1, 2, 2] {
            v.extend(at(i));
        }
        v.extend(&at(3)[..8]);
        v.extend(&at(3)[..8]);
        v.extend(at(3));
        want.push((out, 0, v));
    }
    let mk = |e: &RandEnv| -> Replay {
        let len = env_var(e, n);
        let mut args = vec![Arg::Int(mode as u64), Arg::In(env_bytes(e, akey, 0, 32)), Arg::In(env_bytes(e, amsg, 0, len as usize)), Arg::Int(len)];
        let exp: Vec<Vec<u8>> = want.iter().map(|x| crate::inc::eval_bytes(e, &x.2)).collect();
        let expect = if seek {
            args.extend([Arg::Int(env_var(e, pos)), Arg::Out(128), Arg::Out(64)]);
            vec![(5, exp[0].clone()), (6, exp[1].clone())]
        } else {
            args.push(Arg::Out(7 * 64));
            vec![(4, exp[0].clone())]
        };
        Replay { lib: "hx".into(), func: f.into(), args, expect, env: vec![plat.env()], ..Default::default() }
    };
    let what = format!("{} mode {} {:?} {:?}", if seek { "any position" } else { "clones" }, mode, plat, e);
    let r = crate::inc::Run { f, what, want: want.clone(), dom: vec![], mk: &mk, ends_only: false };
    crate::inc::judge(&mut x, &st, args, &r, jr)
}
pub fn stream_jobs(p: &'static Program, acc: &Acc, thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let es: &[Option<(u64, bool)>] = &[None, Some((0, false)), Some((0, true)), Some((1, false)), Some((31, true)), Some((32, false)), Some((63, true)), Some((100, false)), Some((160, false)), Some((544, false))];
    for mode in 0..3u8 {
        for plat in PLATS {
            for (i, e) in es.iter().enumerate() {
                for seek in [false, true] {
                    if seek && p.find("hx_seek").is_none() {
                        continue;
                    }
                    if !thorough && i > 5 && (i + mode as usize) % 3 != 0 {
                        continue;
                    }
                    let (acc, e) = (acc.clone(), *e);
                    v.push(job(format!("stream mode {} {:?} {:?} seek {}", mode, plat, e, seek), move |jr| {
                        check_stream(p, &acc, mode, plat, e, seek, jr)
                    }));
                }
            }
        }
    }
    v
}

/// The kernel contracts, run before the jobs that use them.
pub fn contracts(p: &'static Program) -> (Acc, Vec<Job>) {
    let acc = Acc::default();
    let j = summ::jobs(p, &acc);
    (acc, j)
}
