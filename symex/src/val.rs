//! C09: hash values: conversions, hex, equality.
use crate::ck::{job, Job, Jr};
use crate::eqv::{self, RandEnv, Verdict};
use crate::exec::*;
use crate::ir::Program;
use crate::kern::*;
use crate::replay::{hex, Arg, Replay};
use crate::term::*;

struct Two {
    a: u32,
    b: u32,
    oa: ObjId,
    ob: ObjId,
}
fn two(x: &mut Exec, st: &mut State) -> Two {
    let (a, b) = (new_arr("a", true), new_arr("b", true));
    Two { a, b, oa: x.arr_obj(st, "a", a, c64(0), c64(32), 1), ob: x.arr_obj(st, "b", b, c64(0), c64(32), 1) }
}
fn digit(n: T) -> T {
    // n: 4 bits
    let n = zext(n, 8);
    ite(ult(n, c(10, 8)), addc(n, b'0' as u64), addc(n, b'a' as u64 - 10))
}
fn finish(x: &mut Exec, paths: Vec<Path>, jr: &mut Jr, name: &str, rp: &dyn Fn(&RandEnv) -> Replay, get: &dyn Fn(&mut Exec, &mut Path) -> Result<(Vec<T>, Vec<T>), String>) -> Result<(), String> {
    jr.absorb(x);
    let mut pcs = vec![];
    for mut pa in paths {
        pcs.push(and_all(&pa.st.pc));
        if let End::Unsup(s) = &pa.end {
            jr.err(s.clone());
            continue;
        }
        if let Some(s) = abnormal(&pa.end) {
            let e = eqv::model(&pa.st.pc, jr.seed)?.ok_or("infeasible path")?;
            jr.fail(s, Some(rp(&e)));
            continue;
        }
        let (got, want) = get(x, &mut pa)?;
        match eqv::prove(&pa.st.pc, &got, &want, jr.seed, &mut jr.eq) {
            Verdict::Same => jr.ok(),
            Verdict::Diff(e) => jr.fail(format!("{}: wrong result", name), Some(rp(&e))),
            Verdict::Unknown(s) => jr.err(s),
        }
    }
    complete(jr, &[], &pcs);
    jr.sample(format!("{}: {} paths", name, pcs.len()));
    Ok(())
}
fn check_hex(p: &'static Program, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let t = two(&mut x, &mut st);
    // room for more than the digits: their number is part of the property
    let out = x.new_obj(&mut st, "out", 128, 1);
    let paths = x.call_all(&st, "hx_hex", vec![ptr(t.oa), ptr(out)])?;
    let rp = |e: &RandEnv| {
        let b = env_bytes(e, t.a, 0, 32);
        let exp = hex(&b).into_bytes();
        Replay { lib: "hx".into(), func: "hx_hex".into(), args: vec![Arg::In(b), Arg::Out(128)], expect: vec![(1, exp), (-1, 64u64.to_le_bytes().to_vec())], ..Default::default() }
    };
    finish(&mut x, paths, jr, "to_hex", &rp, &|x, pa| {
        let n = match &pa.end {
            End::Ret(v) => v.t().map_err(|e| format!("{:?}", e))?,
            _ => return Err("ret".into()),
        };
        if cst(n) != Some(64) {
            return Ok((vec![n], vec![c64(64)]));
        }
        let got = read_words(x, &mut pa.st, out, 0, 64, 8)?;
        let want = (0..64u64)
            .map(|i| {
                let b = arr(t.a, c64(i / 2), 1);
                digit(if i % 2 == 0 { ext(b, 4, 4) } else { ext(b, 0, 4) })
            })
            .collect();
        Ok((got, want))
    })
}
fn check_roundtrip(p: &'static Program, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let t = two(&mut x, &mut st);
    let o1 = x.new_obj(&mut st, "out", 32, 1);
    let o2 = x.new_obj(&mut st, "out", 32, 1);
    let paths = x.call_all(&st, "hx_roundtrip", vec![ptr(t.oa), ptr(o1), ptr(o2)])?;
    let rp = |e: &RandEnv| {
        let b = env_bytes(e, t.a, 0, 32);
        Replay { lib: "hx".into(), func: "hx_roundtrip".into(), args: vec![Arg::In(b.clone()), Arg::Out(32), Arg::Out(32)], expect: vec![(1, b.clone()), (2, b)], ..Default::default() }
    };
    finish(&mut x, paths, jr, "conversions", &rp, &|x, pa| {
        let mut got = read_words(x, &mut pa.st, o1, 0, 32, 8)?;
        got.extend(read_words(x, &mut pa.st, o2, 0, 32, 8)?);
        let b = arr_words(t.a, 0, 32, 1);
        Ok((got, [b.clone(), b].concat()))
    })
}
/// `ne`: the function is the inequality. `alias`: both operands are one object.
fn check_eq(p: &'static Program, f: &'static str, ne: bool, alias: bool, jr: &mut Jr) -> Result<(), String> {
    let mut x = Exec::new(p);
    let mut st = x.state();
    let t = two(&mut x, &mut st);
    let (b, ob) = if alias { (t.a, t.oa) } else { (t.b, t.ob) };
    let rp = |e: &RandEnv| {
        let (u, v) = (env_bytes(e, t.a, 0, 32), env_bytes(e, b, 0, 32));
        let exp = vec![((u == v) != ne) as u8];
        Replay { lib: "hx".into(), func: f.into(), args: vec![Arg::In(u), Arg::In(v)], expect: vec![(-1, exp)], ..Default::default() }
    };
    let same = and_all(&(0..32u64).map(|i| eq(arr(t.a, c64(i), 1), arr(b, c64(i), 1))).collect::<Vec<_>>());
    let want = ite(same, c(!ne as u128, 8), c(ne as u128, 8));
    crate::ct::share(same);
    let paths = x.call_all(&st, f, vec![ptr(t.oa), ptr(ob)])?;
    if crate::ct::on() {
        jr.absorb(&x);
        return crate::ct::judge(&mut x, &paths, &rp, jr);
    }
    finish(&mut x, paths, jr, f, &rp, &|_, pa| match &pa.end {
        End::Ret(v) => {
            let t = v.t().map_err(|e| format!("{:?}", e))?;
            Ok((vec![trunc(t, 8)], vec![want]))
        }
        _ => Err("ret".into()),
    })
}
pub fn eq_jobs(p: &'static Program) -> Vec<Job> {
    let mut v = vec![];
    for (f, ne) in [("hx_eq_hash", false), ("hx_ne_hash", true), ("hx_eq_bytes", false), ("hx_ne_bytes", true)] {
        for alias in [false, true] {
            v.push(job(format!("{} alias {}", f, alias), move |jr: &mut Jr| check_eq(p, f, ne, alias, jr)));
        }
    }
    v
}
pub fn jobs(p: &'static Program) -> Vec<Job> {
    let mut v = vec![job("hex", move |jr: &mut Jr| check_hex(p, jr)), job("conversions", move |jr: &mut Jr| check_roundtrip(p, jr))];
    v.extend(eq_jobs(p));
    v
}
