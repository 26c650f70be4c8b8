//! C01, C02, C03: compression kernels and batch hashing against the
//! specification, fully expanded.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::ir::{mk, Program, Ty};
use crate::irb::Cc;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::spec;
use crate::term::*;
use std::rc::Rc;

/// A writable object initialised with whole words.
pub fn obj_words(x: &Exec, st: &mut State, name: &str, ts: &[T], align: u64) -> ObjId {
    let mut cells = vec![];
    for t in ts {
        for i in 0..w(*t) / 8 {
            cells.push(Cell::B(*t, i));
        }
    }
    let id = x.new_obj(st, name, cells.len() as u64, align);
    Rc::make_mut(st.mem.get_mut(&id).unwrap()).cells = cells;
    id
}
pub fn set_ro(st: &mut State, id: ObjId) {
    Rc::make_mut(st.mem.get_mut(&id).unwrap()).ro = true;
}
pub fn ptr(o: ObjId) -> V {
    V::P(o, c64(0))
}
/// Array of pointers to the given objects.
pub fn ptr_array(x: &Exec, st: &mut State, name: &str, os: &[ObjId]) -> ObjId {
    let id = x.new_obj(st, name, 8 * os.len() as u64, 8);
    let ob = Rc::make_mut(st.mem.get_mut(&id).unwrap());
    for (i, o) in os.iter().enumerate() {
        for k in 0..8 {
            ob.cells[8 * i + k] = Cell::P(*o, c64(0), k as u8);
        }
    }
    ob.ro = true;
    id
}
pub fn read_words(x: &mut Exec, st: &mut State, o: ObjId, off: u64, n: usize, bits: u16) -> Result<Vec<T>, String> {
    let ty = mk(Ty::Int(bits));
    let mut v = vec![];
    for i in 0..n as u64 {
        let p = V::P(o, c64(off + i * bits as u64 / 8));
        match x.load(st, &p, ty).and_then(|v| v.t()) {
            Ok(t) => v.push(t),
            Err(e) => return Err(format!("{:?}", e)),
        }
    }
    Ok(v)
}
pub fn arr_words(a: u32, off: u64, n: usize, bytes: u8) -> Vec<T> {
    (0..n as u64).map(|i| arr(a, c64(off + i * bytes as u64), bytes)).collect()
}
pub fn env_bytes(e: &RandEnv, a: u32, off: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| e.arr(a, off.wrapping_add(i))).collect()
}
pub fn env_var(e: &RandEnv, t: T) -> u64 {
    Eval::new(e).get(t) as u64
}

/// How a path ended, other than by returning.
pub fn abnormal(end: &End) -> Option<String> {
    match end {
        End::Ret(_) => None,
        End::Panic(s) => Some(format!("panic or abort: {}", s)),
        End::Bad(k, s) => Some(format!("{}: {}", k, s)),
        End::Unsup(_) => None,
    }
}

// ------------------------------------------------------------ compression

#[derive(Clone, Copy)]
pub struct Comp {
    pub lib: &'static str,
    pub func: &'static str,
    pub bits: u16,
    pub xof: bool,
}

pub fn check_compress(p: &'static Program, k: Comp, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let wb = (k.bits / 8) as u8;
    let ncv = if k.bits == 32 { 8 } else { 4 };
    let blk = 16 * wb as usize;
    let (acv, ablk) = (new_arr("cv", true), new_arr("block", true));
    let cvt = arr_words(acv, 0, ncv, wb);
    let cv = obj_words(&x, &mut st, "cv", &cvt, wb as u64);
    let m = arr_words(ablk, 0, 16, wb);
    let b = x.arr_obj(&mut st, "block", ablk, c64(0), c64(blk as u64), 1);
    let (blen, off, fl) = (var("block_len", 8), var("offset", 64), var("flags", 8));
    let mut args = vec![ptr(cv), ptr(b), vt(blen), vt(off), vt(fl)];
    let mut out = 0;
    if k.xof {
        set_ro(&mut st, cv);
        out = x.new_obj(&mut st, "out", blk as u64, 1);
        args.push(ptr(out));
    }
    let want = if k.bits == 32 {
        spec::compress32(&cvt, &m, zext(blen, 32), off, zext(fl, 32))
    } else {
        spec::compress64(&cvt, &m, zext(blen, 64), off, zext(fl, 64))
    };
    let paths = x.call_all(&st, k.func, args)?;
    jr.absorb(&x);
    let mk_replay = |e: &RandEnv| -> Replay {
        let cvb = env_bytes(e, acv, 0, 32);
        let bb = env_bytes(e, ablk, 0, blk);
        let (l, o, f) = (env_var(e, blen), env_var(e, off), env_var(e, fl));
        let full: Vec<u8> = if k.bits == 32 {
            let c: Vec<u32> = oracle::words(&cvb);
            oracle::compress32(&c.try_into().unwrap(), &oracle::block_words(&bb), l as u32, o, f as u32).iter().flat_map(|x| x.to_le_bytes()).collect()
        } else {
            let c: Vec<u64> = oracle::words64(&cvb);
            let m: Vec<u64> = oracle::words64(&bb);
            oracle::compress64(&c.try_into().unwrap(), &m.try_into().unwrap(), l, o, f).iter().flat_map(|x| x.to_le_bytes()).collect()
        };
        let mut args = vec![if k.xof { Arg::In(cvb) } else { Arg::InOut(cvb) }, Arg::In(bb), Arg::Int(l), Arg::Int(o), Arg::Int(f)];
        let expect = if k.xof {
            args.push(Arg::Out(blk));
            vec![(5, full)]
        } else {
            vec![(0, full[..32].to_vec())]
        };
        Replay { lib: k.lib.into(), func: k.func.into(), args, expect, odd: if k.xof { vec![1, 5] } else { vec![1] }, ..Default::default() }
    };
    if crate::ct::on() {
        return crate::ct::judge(&mut x, &paths, &mk_replay, jr);
    }
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            jr.fail(s, Some(mk_replay(&e)));
            continue;
        }
        let got = if k.xof { read_words(&mut x, &mut pa.st, out, 0, 16, k.bits)? } else { read_words(&mut x, &mut pa.st, cv, 0, ncv, k.bits)? };
        match eqv::prove(&pa.st.pc, &got, &want[..got.len()], jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => jr.fail("output differs from the specified function", Some(mk_replay(&e))),
            Verdict::Unknown(s) => jr.err(s),
        }
    }
    complete(jr, &[], &pcs);
    jr.sample(format!("{} on symbolic cv, block, block_len, offset, flags: {} path(s)", k.func, pcs.len()));
    Ok(())
}

/// The explored paths cover the whole domain.
pub fn complete(jr: &mut Jr, dom: &[T], pcs: &[T]) {
    let mut q = dom.to_vec();
    q.push(not(or_all(pcs)));
    match crate::smt::check(&q) {
        crate::smt::Res::Unsat => jr.ok(),
        r => jr.err(format!("path coverage: {:?}", r)),
    }
}

// ------------------------------------------------------------ batches

#[derive(Clone, Copy, Debug)]
pub struct Hm {
    pub lib: &'static str,
    pub func: &'static str,
    pub c_style: bool,
    pub bits: u16,
    pub blocks: u64,
    pub n: u64,
    /// fixed-width kernel (no count argument)
    pub fixed: bool,
    /// concrete offset step (with every start offset), otherwise symbolic
    pub step: Option<u64>,
    /// only memory accesses and how paths end, not what they compute
    pub ends_only: bool,
    /// entries in the table of offset steps (C)
    pub deltas: u64,
}

pub fn check_many(p: &'static Program, k: Hm, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let wb = (k.bits / 8) as u8;
    let ncv = if k.bits == 32 { 8 } else { 4 };
    let blk = 16 * wb as u64;
    let (akey, ain) = (new_arr("key", true), new_arr("input", true));
    let keyt = arr_words(akey, 0, ncv, wb);
    let key = obj_words(&x, &mut st, "key", &keyt, wb as u64);
    set_ro(&mut st, key);
    let len = blk * k.blocks;
    // input i is bytes i*len.. of one array, in an object of its own
    let ins: Vec<ObjId> = (0..k.n).map(|i| x.arr_obj(&mut st, &format!("input{}", i), ain, c64(i * len), c64(len), 1)).collect();
    let ptrs = ptr_array(&x, &mut st, "inputs", &ins);
    // The Rust code adds offsets with overflow checks, so there the domain is
    // "no wrap-around": every start offset with the steps the library uses, and
    // every step below 2^58 from every start offset up to 2^63.
    let (off, step) = match (k.c_style, k.step) {
        (true, Some(s)) => (var("offset", 64), c64(s)),
        (true, None) => (var("offset", 64), var("step", 64)),
        (false, Some(s)) => (var_r("offset", 64, 0, (!0u64 - k.n * s) as u128, 0, false), c64(s)),
        (false, None) => (var_r("offset", 64, 0, 1 << 63, 0, false), var_r("step", 64, 0, (1 << 58) - 1, 0, false)),
    };
    let (fl, fs, fe) = (var("flags", 8), var("flags_start", 8), var("flags_end", 8));
    let out = x.new_obj(&mut st, "out", 32 * k.n, 1);
    let mut args = vec![ptr(ptrs)];
    if k.c_style {
        let ds: Vec<T> = (0..k.deltas).map(|i| mul(step, c64(i))).collect();
        let d = obj_words(&x, &mut st, "offset_deltas", &ds, 8);
        set_ro(&mut st, d);
        if !k.fixed {
            args.push(vt(c64(k.n)));
        }
        args.extend([vt(c64(k.blocks)), ptr(key), vt(off), ptr(d), vt(fl), vt(fs), vt(fe), ptr(out)]);
    } else {
        args.extend([vt(c64(k.n)), ptr(key), vt(off), vt(step), vt(fl), vt(fs), vt(fe), ptr(out), vt(c64(32 * k.n))]);
    }
    let paths = x.call_all(&st, k.func, args)?;
    jr.absorb(&x);
    // specification
    let mut want = vec![];
    for i in 0..k.n {
        let o = add(off, mul(step, c64(i)));
        let mut cv = keyt.clone();
        for b in 0..k.blocks {
            let mut f = fl;
            if b == 0 {
                f = or2(f, fs);
            }
            if b + 1 == k.blocks {
                f = or2(f, fe);
            }
            let m = arr_words(ain, i * len + b * blk, 16, wb);
            let r = if k.bits == 32 {
                spec::compress32(&cv, &m, c(64, 32), o, zext(f, 32))
            } else {
                spec::compress64(&cv, &m, c(128, 64), o, zext(f, 64))
            };
            cv = r[..ncv].to_vec();
        }
        want.extend(cv);
    }
    let mk_replay = |e: &RandEnv| -> Replay {
        let kb = env_bytes(e, akey, 0, 32);
        let (o, s, f, fsv, fev) = (env_var(e, off), env_var(e, step), env_var(e, fl), env_var(e, fs), env_var(e, fe));
        let inp: Vec<Vec<u8>> = (0..k.n).map(|i| env_bytes(e, ain, i * len, len as usize)).collect();
        let mut exp = vec![];
        for (i, d) in inp.iter().enumerate() {
            let oi = o.wrapping_add(s.wrapping_mul(i as u64));
            if k.bits == 32 {
                let r = oracle::hash_blocks(&oracle::words(&kb).try_into().unwrap(), d, oi, f as u32, fsv as u32, fev as u32);
                exp.extend(r.iter().flat_map(|x| x.to_le_bytes()));
            } else {
                let r = oracle::hash_blocks64(&oracle::words64(&kb).try_into().unwrap(), d, oi, f, fsv, fev);
                exp.extend(r.iter().flat_map(|x| x.to_le_bytes()));
            }
        }
        let mut args = vec![Arg::Ptrs(inp)];
        let oi;
        if k.c_style {
            if !k.fixed {
                args.push(Arg::Int(k.n));
            }
            let ds: Vec<u8> = (0..k.deltas).flat_map(|i| s.wrapping_mul(i).to_le_bytes()).collect();
            args.extend([Arg::Int(k.blocks), Arg::In(kb), Arg::Int(o), Arg::In(ds), Arg::Int(f), Arg::Int(fsv), Arg::Int(fev)]);
            oi = args.len();
            args.push(Arg::Out(32 * k.n as usize));
        } else {
            args.extend([Arg::Int(k.n), Arg::In(kb), Arg::Int(o), Arg::Int(s), Arg::Int(f), Arg::Int(fsv), Arg::Int(fev)]);
            oi = args.len();
            args.push(Arg::Out(32 * k.n as usize));
            args.push(Arg::Int(32 * k.n));
        }
        Replay { lib: k.lib.into(), func: k.func.into(), args, expect: vec![(oi as i32, exp)], odd: vec![0, oi], ..Default::default() }
    };
    if crate::ct::on() {
        return crate::ct::judge(&mut x, &paths, &mk_replay, jr);
    }
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            jr.fail(s, Some(mk_replay(&e)));
            continue;
        }
        if k.ends_only {
            jr.ok();
            continue;
        }
        let got = read_words(&mut x, &mut pa.st, out, 0, ncv * k.n as usize, k.bits)?;
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => jr.fail(format!("n={} blocks={}: output differs from hashing each input alone", k.n, k.blocks), Some(mk_replay(&e))),
            Verdict::Unknown(s) => jr.err(s),
        }
    }
    complete(jr, &[], &pcs);
    jr.sample(format!("{} n={} blocks={}: symbolic inputs, key, offset, step, flags; {} path(s)", k.func, k.n, k.blocks, pcs.len()));
    Ok(())
}

pub fn comps() -> Vec<(Option<Cc>, Comp)> {
    let r = |func, bits, xof| (None, Comp { lib: "hx", func, bits, xof });
    let c = |cc, lib, func, bits| (Some(cc), Comp { lib, func, bits, xof: false });
    vec![
        r("hx_portable_compress", 32, false),
        r("hx_portable_compress_xof", 32, true),
        r("hx_sse41_compress", 32, false),
        r("hx_sse41_compress_xof", 32, true),
        c(Cc::Avx512, "c:avx512", "compress_portable", 32),
        c(Cc::Avx512, "c:avx512", "compress_sse41", 32),
        c(Cc::Avx512, "c:avx512", "compress_avx512", 32),
        r("hx_portable64_compress", 64, false),
        r("hx_portable64_compress_xof", 64, true),
        c(Cc::Avx512, "c:avx512", "baokeshed64_compress_portable", 64),
        c(Cc::Avx512, "c:avx512", "baokeshed64_compress_avx2", 64),
        c(Cc::Avx512, "c:avx512", "baokeshed64_compress_avx512", 64),
    ]
}

pub struct Progs {
    pub hx: &'static Program,
    pub c: &'static Program,
    pub neon: &'static Program,
}

pub fn compress_jobs(ps: &Progs, bits: u16) -> Vec<Job> {
    let mut v = vec![];
    for (cc, k) in comps() {
        if k.bits != bits {
            continue;
        }
        let p = if cc.is_none() { ps.hx } else { ps.c };
        v.push(job(format!("{} {}", k.lib, k.func), move |jr| check_compress(p, k, jr)));
    }
    v
}

/// (program, function, C style, fixed width)
pub fn many_jobs(ps: &Progs, bits: u16, thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let b1: u64 = if bits == 32 { 64 } else { 128 };
    let mut add = |p: &'static Program, k: Hm| {
        v.push(job(format!("{} {} n={} blocks={}{}", k.lib, k.func, k.n, k.blocks, k.step.map(|s| format!(" step={}", s)).unwrap_or_default()), move |jr| check_many(p, k, jr)));
    };
    let rust: &[(&str, u64)] = if bits == 32 { &[("portable", 1), ("sse41", 4), ("avx2", 8)] } else { &[("portable64", 1)] };
    for (name, deg) in rust {
        for blocks in [32u64, 2, 1] {
            let f: &'static str = Box::leak(format!("hx_{}_hash_many_{}", name, b1 * blocks).into_boxed_str());
            for n in counts(*deg, blocks, thorough) {
                add(ps.hx, Hm { lib: "hx", func: f, c_style: false, bits, blocks, n, fixed: false, step: None, ends_only: false, deltas: 17 });
                if n > 0 {
                    add(ps.hx, Hm { lib: "hx", func: f, c_style: false, bits, blocks, n, fixed: false, step: Some(if blocks == 1 { 0 } else { b1 * 32 }), ends_only: false, deltas: 17 });
                }
            }
        }
    }
    let pre = if bits == 32 { "" } else { "baokeshed64_" };
    let cs: &[(&str, u64, bool)] = if bits == 32 {
        &[("portable", 1, false), ("sse41", 4, false), ("avx2", 8, false), ("avx512", 16, false), ("neon", 4, true)]
    } else {
        &[("portable", 1, false), ("sse41", 2, false), ("avx2", 4, false), ("avx512", 8, false), ("neon", 2, true)]
    };
    for (name, deg, neon) in cs {
        let (p, lib) = if *neon { (ps.neon, "c:neon") } else { (ps.c, "c:avx512") };
        let f: &'static str = Box::leak(format!("{}hash_many_{}", pre, name).into_boxed_str());
        for blocks in [32u64, 3, 2, 1] {
            for n in counts(*deg, blocks, thorough) {
                add(p, Hm { lib, func: f, c_style: true, bits, blocks, n, fixed: false, step: None, ends_only: false, deltas: 17 });
            }
        }
    }
    // the fixed-width kernels themselves
    let fx: &[(&str, u64, bool)] = if bits == 32 {
        &[("hash4_sse41", 4, false), ("hash8_avx2", 8, false), ("hash4_avx512", 4, false), ("hash8_avx512", 8, false), ("hash16_avx512", 16, false), ("hash4_neon", 4, true)]
    } else {
        &[
            ("hash2_sse41", 2, false),
            ("hash4_avx2", 4, false),
            ("hash2_avx512", 2, false),
            ("hash4_avx512", 4, false),
            ("hash8_avx512", 8, false),
            ("hash2_neon", 2, true),
        ]
    };
    for (name, n, neon) in fx {
        let (p, lib) = if *neon { (ps.neon, "c:neon") } else { (ps.c, "c:avx512") };
        let f: &'static str = Box::leak(format!("{}{}", pre, name).into_boxed_str());
        for blocks in [1, 2] {
            add(p, Hm { lib, func: f, c_style: true, bits, blocks, n: *n, fixed: true, step: None, ends_only: false, deltas: 17 });
        }
    }
    v
}

fn counts(deg: u64, blocks: u64, thorough: bool) -> Vec<u64> {
    let top = if deg == 1 { 4 } else { 2 * deg + 3 };
    if thorough || blocks == 1 {
        return (0..=top + if thorough { 9 } else { 0 }).collect();
    }
    if blocks < 10 {
        let mut v = vec![1, deg, deg + 1, 2 * deg - 1];
        v.dedup();
        return v;
    }
    // whole chunks: every lane width plus a remainder
    let mut v = vec![deg];
    if deg > 1 {
        v.push(deg + 1);
    }
    v
}
