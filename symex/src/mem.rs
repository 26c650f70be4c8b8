//! C13: memory accesses of the native kernels, and the C objects as the Rust
//! bindings declare them.
use crate::ck::{job, Job, Jr};
use crate::eqv::RandEnv;
use crate::exec::*;
use crate::inc::{eval_bytes, judge, random_ends, start_of, stack_starts, u64s, writes, Base, Lcg, Mid, Run};
use crate::ir::Program;
use crate::kern::*;
use crate::oracle;
use crate::replay::{Arg, Replay};
use crate::summ::Acc;
use crate::term::*;
use std::rc::Rc;

/// Memory accesses only, with every object exactly as large as documented.
pub fn many_jobs(ps: &Progs, ffi: &'static Program, thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut add = |p: &'static Program, k: Hm| {
        v.push(job(format!("memory of {} {} n={} blocks={}", k.lib, k.func, k.n, k.blocks), move |jr| check_many(p, k, jr)));
    };
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    for bits in [32u16, 64] {
        let b1: u64 = if bits == 32 { 64 } else { 128 };
        let rust: &[(&str, u64)] = if bits == 32 { &[("portable", 1), ("sse41", 4), ("avx2", 8)] } else { &[("portable64", 1)] };
        for (name, deg) in rust {
            for blocks in [32u64, 2, 1] {
                let f = leak(format!("hx_{}_hash_many_{}", name, b1 * blocks));
                let top = if thorough { 4 * deg + 7 } else { 2 * deg + 3 };
                for n in 0..=top {
                    if blocks == 32 && !thorough && n != 1 && n != *deg && n != deg + 1 {
                        continue;
                    }
                    let step = Some(if blocks == 1 { 0 } else { b1 * 32 });
                    add(ps.hx, Hm { lib: "hx", func: f, c_style: false, bits, blocks, n, fixed: false, step, ends_only: true, deltas: 17 });
                }
            }
        }
        let pre = if bits == 32 { "" } else { "baokeshed64_" };
        let cs: &[(&str, u64, bool)] = if bits == 32 {
            &[("portable", 1, false), ("sse41", 4, false), ("avx2", 8, false), ("avx512", 16, false), ("neon", 4, true)]
        } else {
            &[("portable", 1, false), ("sse41", 2, false), ("avx2", 4, false), ("avx512", 8, false), ("neon", 2, true)]
        };
        for (name, deg, neon) in cs {
            let (p, lib, h) = if *neon { (ps.neon, "c:neon", "") } else { (ffi, "hx:ffi", "hx_ffi_") };
            let f = leak(format!("{}{}hash_many_{}", h, pre, name));
            for blocks in if thorough { vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33] } else { vec![0, 1, 2, 3, 5, 32] } {
                let top = if thorough { 4 * deg + 7 } else { 2 * deg + 3 };
                for n in 0..=top {
                    if !thorough && (blocks == 5 && n % deg > 1 && n != 2 * deg - 1 || blocks == 32 && n != 1 && n != *deg && n != deg + 1) {
                        continue;
                    }
                    // the result as well where it is cheap: do the bindings
                    // pass every argument in its place?
                    let full = blocks == 3 && n == deg + 1;
                    add(p, Hm { lib, func: f, c_style: true, bits, blocks, n, fixed: false, step: None, ends_only: !full, deltas: deg + 1 });
                }
            }
        }
        let fx: &[(&str, u64, bool)] = if bits == 32 {
            &[("hash4_sse41", 4, false), ("hash8_avx2", 8, false), ("hash4_avx512", 4, false), ("hash8_avx512", 8, false), ("hash16_avx512", 16, false), ("hash4_neon", 4, true)]
        } else {
            &[
                ("hash2_sse41", 2, false),
                ("hash4_avx2", 4, false),
                ("hash2_avx512", 2, false),
                ("hash4_avx512", 4, false),
                ("hash8_avx512", 8, false),
                ("hash2_neon", 2, true),
            ]
        };
        for (name, n, neon) in fx {
            let (p, lib, h) = if *neon { (ps.neon, "c:neon", "") } else { (ffi, "hx:ffi", "hx_ffi_") };
            let f = leak(format!("{}{}{}", h, pre, name));
            for blocks in [0, 1, 2, 3, 5, 32] {
                add(p, Hm { lib, func: f, c_style: true, bits, blocks, n: *n, fixed: true, step: None, ends_only: blocks != 2, deltas: *n });
            }
        }
    }
    for (func, bits) in [
        ("hx_ffi_compress_portable", 32u16),
        ("hx_ffi_compress_sse41", 32),
        ("hx_ffi_compress_avx512", 32),
        ("hx_ffi_baokeshed64_compress_portable", 64),
        ("hx_ffi_baokeshed64_compress_avx2", 64),
        ("hx_ffi_baokeshed64_compress_avx512", 64),
    ] {
        let k = Comp { lib: "hx:ffi", func, bits, xof: false };
        v.push(job(format!("memory of {}", func), move |jr| check_compress(ffi, k, jr)));
    }
    for (_, k) in comps().into_iter().filter(|x| x.0.is_none()) {
        let p = ps.hx;
        v.push(job(format!("memory of {}", k.func), move |jr| check_compress(p, k, jr)));
    }
    v
}

// ------------------------------------------------------------ layout

fn numbers(p: &'static Program, f: &str, n: usize) -> Result<Vec<u64>, String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let o = x.new_obj(&mut st, "out", 8 * 32, 8);
    let mut pa = x.call_all(&st, f, vec![ptr(o)])?.pop().ok_or("no path")?;
    if !matches!(pa.end, End::Ret(_)) {
        return Err(format!("{}: {:?}", f, abnormal(&pa.end)));
    }
    read_words(&mut x, &mut pa.st, o, 0, n, 64)?.into_iter().map(|t| cst(t).map(|x| x as u64).ok_or_else(|| f.to_string())).collect()
}
const FIELDS: [&str; 10] = [
    "hasher.chunk",
    "hasher.subtree_hashes_len",
    "hasher.subtree_hashes",
    "chunk_state.state",
    "chunk_state.key",
    "chunk_state.offset",
    "chunk_state.count",
    "chunk_state.buf",
    "chunk_state.buf_len",
    "chunk_state.flags",
];
pub fn check_layout(p: &'static Program, jr: &mut Jr) -> Result<(), String> {
    let c = numbers(p, "hx_layout", 4)?;
    let r = numbers(p, "hx_ffi_sizes", 4)?;
    let rp = |f: &str, want: &[u64]| Replay { lib: "hx:ffi".into(), func: f.into(), args: vec![Arg::Out(8 * want.len())], expect: vec![(0, u64s(want))], ..Default::default() };
    for (i, n) in ["size of hasher", "alignment of hasher", "size of chunk_state", "alignment of chunk_state"].iter().enumerate() {
        if c[i] == r[i] {
            jr.ok();
        } else {
            jr.fail(format!("{}: {} in C, {} in the Rust binding", n, c[i], r[i]), Some(rp("hx_ffi_sizes", &c)));
        }
    }
    if p.find("hx_ffi_fields").is_some() {
        if let Ok(cf) = numbers(p, "hx_layout", 24) {
            let rf = numbers(p, "hx_ffi_fields", 20)?;
            for (i, n) in FIELDS.iter().enumerate() {
                let (a, b) = (&cf[4 + 2 * i..][..2], &rf[2 * i..][..2]);
                if a == b {
                    jr.ok();
                } else {
                    jr.fail(format!("{}: position and size {:?} in C, {:?} in the Rust binding", n, a, b), Some(rp("hx_ffi_fields", &cf[4..])));
                }
            }
        }
    } else {
        jr.notes.push("field positions are not visible".into());
    }
    jr.sample(format!("C {:?}, Rust {:?}", c, r));
    Ok(())
}

// ------------------------------------------------------------ the hasher through the bindings

/// From the start; the object is the one Rust allocates.
fn check_start(p: &'static Program, acc: &Acc, ends: &crate::inc::Ends, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 1);
    let flags = var_r("mode", 8, 0, 48, 4, false);
    let b = Base { mode: zext(flags, 32), ..start_of(1, akey, amsg) };
    let ws = writes(&b, ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let out = x.new_obj(&mut st, "out", 32, 1);
    let nk = ends.len() as u64;
    let at = ws.ats.last().copied().flatten();
    let want = b.root(at)?.root(c64(0))[..8].to_vec();
    let args = vec![ptr(key), vt(flags), ptr(msg), ptr(lens), vt(c64(nk)), ptr(out)];
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let args = vec![
            Arg::In(env_bytes(e, akey, 0, 32)),
            Arg::Int(env_var(e, flags)),
            Arg::In(env_bytes(e, amsg, 0, ls.iter().sum::<u64>() as usize)),
            Arg::In(u64s(&ls)),
            Arg::Int(nk),
            Arg::Out(32),
        ];
        Replay { lib: "hx:ffi".into(), func: "hx_ffi_hasher".into(), args, expect: vec![(5, eval_bytes(e, &want))], odd: vec![0, 2, 5], ..Default::default() }
    };
    let r = Run { f: "hx_ffi_hasher", what: format!("binding {:?}", ends), want: vec![(out, 0, want.clone())], dom: ws.assume.clone(), mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

/// From the middle of a stream, in an object of the size Rust declares.
fn check_mid(p: &'static Program, acc: &Acc, k: &Mid, jr: &mut Jr) -> Result<(), String> {
    let lay = numbers(p, "hx_layout", 24)?;
    let size = numbers(p, "hx_ffi_sizes", 4)?[0];
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    let off = c64(k.c * 2048);
    let (akey, acv, astk, amsg) = (new_arr("key", true), new_arr("cv", true), new_arr("stack", true), new_arr("data", true));
    let key = arr_words(akey, 0, 8, 4);
    let flags = var_r("mode", 8, 0, 48, 4, false);
    let starts = stack_starts(k.c, k.pend.is_some());
    let known: Vec<(u64, Vec<T>)> = starts.iter().enumerate().map(|(i, s)| (*s, arr_words(astk, 32 * i as u64, 8, 4))).collect();
    let done = k.pend.map_or(0, |x| x.0);
    let buffered = match k.pend {
        None => c64(0),
        Some((_, true)) => c64(64),
        _ => var_r("buffered", 64, 1, 63, 0, false),
    };
    let cv = if done > 0 { arr_words(acv, 0, 8, 4) } else { key.clone() };
    let b = Base { key: key.clone(), mode: zext(flags, 32), known, chunks: k.c, off, cv: cv.clone(), done, buffered, arr: amsg, alt: None };
    let ws = writes(&b, &k.ends);
    for a in &ws.assume {
        x.assume(&mut st, *a).map_err(|e| format!("{:?}", e))?;
    }
    let n = starts.len() as u64;
    let mut bytes: Vec<Option<T>> = vec![None; size as usize];
    let mut put = |at: u64, t: &[T]| {
        let mut at = at as usize;
        for t in t {
            for i in 0..w(*t) / 8 {
                if at < bytes.len() {
                    bytes[at] = Some(ext(*t, 8 * i, 8));
                }
                at += 1;
            }
        }
    };
    let field = |name: &str| -> (u64, u16) {
        let i = FIELDS.iter().position(|x| *x == name).unwrap();
        let base = if i >= 3 { lay[4] } else { 0 };
        (base + lay[4 + 2 * i], 8 * lay[5 + 2 * i] as u16)
    };
    let (at, bits) = field("hasher.subtree_hashes_len");
    put(at, &[trunc(c64(n), bits)]);
    put(field("hasher.subtree_hashes").0, &arr_words(astk, 0, 8 * n as usize, 4));
    put(field("chunk_state.state").0, &cv);
    put(field("chunk_state.key").0, &key);
    put(field("chunk_state.offset").0, &[off]);
    let (at, bits) = field("chunk_state.count");
    put(at, &[trunc(c64(64 * done), bits)]);
    let bufb: Vec<T> = (0..64u64).map(|i| ite(ult(c64(i), buffered), arr(amsg, c64(64 * done + i), 1), c(0, 8))).collect();
    put(field("chunk_state.buf").0, &bufb);
    let (at, bits) = field("chunk_state.buf_len");
    put(at, &[trunc(buffered, bits)]);
    put(field("chunk_state.flags").0, &[flags]);
    let h = x.new_obj(&mut st, "hasher", size, 8);
    let ob = Rc::make_mut(st.mem.get_mut(&h).unwrap());
    for (i, t) in bytes.iter().enumerate() {
        if let Some(t) = t {
            ob.cells[i] = Cell::B(*t, 0);
        }
    }
    let msg = x.arr_obj(&mut st, "data", amsg, b.have(), ws.total, 1);
    let lens = obj_words(&x, &mut st, "lens", &ws.lens, 8);
    set_ro(&mut st, lens);
    let out = x.new_obj(&mut st, "out", 64, 1);
    let args = vec![ptr(h), ptr(msg), ptr(lens), ptr(out)];
    let mut want = vec![];
    for i in 0..2 {
        want.push((out, 32 * i as u64, b.root(ws.ats[i])?.root(c64(0))[..8].to_vec()));
    }
    let mk = |e: &RandEnv| -> Replay {
        let ls: Vec<u64> = ws.lens.iter().map(|l| env_var(e, *l)).collect();
        let hb: Vec<u8> = bytes.iter().map(|t| t.map_or(0xaa, |t| env_var(e, t) as u8)).collect();
        let args = vec![
            Arg::InOut(hb),
            Arg::In(env_bytes(e, amsg, env_var(e, b.have()), ls.iter().sum::<u64>() as usize)),
            Arg::In(u64s(&ls)),
            Arg::Out(64),
        ];
        let exp: Vec<u8> = want.iter().flat_map(|x| eval_bytes(e, &x.2)).collect();
        Replay { lib: "hx:ffi".into(), func: "hx_ffi_step".into(), args, expect: vec![(3, exp)], odd: vec![1, 3], ..Default::default() }
    };
    let r = Run { f: "hx_ffi_step", what: format!("binding {:?}", k), want: want.clone(), dom: ws.assume.clone(), mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

/// A chunk state through the bindings: object exactly as Rust declares it.
fn check_chunk(p: &'static Program, acc: &Acc, blocks: u64, root: bool, jr: &mut Jr) -> Result<(), String> {
    let size = numbers(p, "hx_ffi_sizes", 4)?[2];
    let mut x = Exec::new(p);
    acc.lock().unwrap().install(&mut x);
    let mut st = x.state();
    let (akey, amsg) = (new_arr("key", true), new_arr("message", true));
    let key = x.arr_obj(&mut st, "key", akey, c64(0), c64(32), 4);
    let flags = var_r("mode", 8, 0, 48, 4, false);
    let last = if blocks == 0 { c64(0) } else { var_r("last", 64, 1, 64, 0, false) };
    let e = blocks.saturating_sub(1);
    let n = addc(last, 64 * e);
    let msg = x.arr_obj(&mut st, "message", amsg, c64(0), n, 1);
    let h = x.new_obj(&mut st, "chunk state", size, 8);
    let out = x.new_obj(&mut st, "out", 32, 1);
    let node = crate::spec::chunk_node(&arr_words(akey, 0, 8, 4), zext(flags, 32), c64(0), &crate::spec::Msg::new(amsg, e + 1, last));
    let want = if root { node.root(c64(0))[..8].to_vec() } else { node.cv() };
    let args = vec![ptr(h), ptr(key), vt(flags), ptr(msg), vt(n), vt(c(root as u128, 8)), ptr(out)];
    let mk = |e: &RandEnv| -> Replay {
        let args = vec![
            Arg::Out(size as usize),
            Arg::In(env_bytes(e, akey, 0, 32)),
            Arg::Int(env_var(e, flags)),
            Arg::In(env_bytes(e, amsg, 0, env_var(e, n) as usize)),
            Arg::Int(env_var(e, n)),
            Arg::Int(root as u64),
            Arg::Out(32),
        ];
        Replay { lib: "hx:ffi".into(), func: "hx_ffi_chunk".into(), args, expect: vec![(6, eval_bytes(e, &want))], odd: vec![3, 6], ..Default::default() }
    };
    let r = Run { f: "hx_ffi_chunk", what: format!("chunk of {} blocks", blocks), want: vec![(out, 0, want.clone())], dom: vec![], mk: &mk, ends_only: false };
    judge(&mut x, &st, args, &r, jr)
}

pub fn ffi_jobs(p: &'static Program, acc: &Acc, thorough: bool, seed: u64) -> Vec<Job> {
    let mut v = vec![job("layout", move |jr: &mut Jr| check_layout(p, jr))];
    let mut g = Lcg(seed ^ 0xff1);
    let mut starts: Vec<crate::inc::Ends> = vec![];
    for e in [(0, false), (0, true), (31, true), (32, false), (63, true), (95, false), (160, true), (500, false), (511, true), (512, false), (545, false)] {
        starts.push(vec![Some(e)]);
    }
    for _ in 0..if thorough { 400 } else { 40 } {
        let m = 2 + g.next(3) as usize;
        starts.push(random_ends(&mut g, m, 5, 20));
    }
    for ends in starts {
        let acc = acc.clone();
        v.push(job(format!("binding {:?}", ends), move |jr| check_start(p, &acc, &ends, jr)));
    }
    for blocks in [0u64, 1, 2, 31, 32] {
        for root in [false, true] {
            let acc = acc.clone();
            v.push(job(format!("binding, chunk of {} blocks, root {}", blocks, root), move |jr| check_chunk(p, &acc, blocks, root, jr)));
        }
    }
    if numbers(p, "hx_layout", 24).is_ok() {
        let (_, mids) = crate::inc::c_lists(&[crate::tree::Plat::C(crate::irb::Cc::Avx512)], thorough, seed);
        let top: Vec<Mid> = mids.into_iter().enumerate().filter(|(i, m)| thorough || m.c + 3 > 1 << 53 || (m.c.count_ones() > 44 || i % 7 == 0)).map(|x| x.1).collect();
        let mut seen = 0;
        for k in top {
            seen += 1;
            if !thorough && seen > 220 {
                break;
            }
            let acc = acc.clone();
            v.push(job(format!("binding, mid-stream {:?}", k), move |jr| check_mid(p, &acc, &k, jr)));
        }
        // the fullest stacks: all ones below the last chunk
        for j in [1u64 << 52, (1 << 52) - 1, (1 << 53) - 1, (1 << 53) - 2, 3 << 51] {
            for pend in [None, Some((0, false)), Some((31, true))] {
                let room = 32 * ((1u64 << 53) - j) - 1;
                let d = pend.unwrap_or((0, false));
                for far in [(31u64, true), (64, false)] {
                    if far.0 >= room || d > far {
                        continue;
                    }
                    let k = Mid { plat: crate::tree::Plat::C(crate::irb::Cc::Avx512), c: j, low: 0, high: 0, pend, ends: vec![Some(d), Some(far)] };
                    let acc = acc.clone();
                    v.push(job(format!("binding, mid-stream {:?}", k), move |jr| check_mid(p, &acc, &k, jr)));
                }
            }
        }
    }
    let _ = oracle::KEYED;
    v
}
