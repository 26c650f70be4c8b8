//! Vector intrinsics used by the kernels (Intel SDM / Arm ACLE semantics).
use crate::exec::*;
use crate::term::*;

fn pshufb(x: &[V], m: &[V]) -> R<Vec<V>> {
    // within each 16-byte lane
    let mut r = vec![];
    for (i, mv) in m.iter().enumerate() {
        let k = cst(mv.t()?).ok_or(Stop::Unsup("symbolic shuffle mask".into()))?;
        r.push(if k & 0x80 != 0 { vt(c(0, 8)) } else { x[(i / 16) * 16 + (k & 15) as usize].clone() });
    }
    Ok(r)
}

pub fn intrinsic(n: &str, a: &[V]) -> R<V> {
    match n {
        "x86.ssse3.pshuf.b.128" | "x86.avx2.pshuf.b" | "x86.avx512.pshuf.b.512" => {
            return Ok(agg(pshufb(&a[0].lanes()?, &a[1].lanes()?)?));
        }
        "x86.avx512.vpermi2var.d.512"
        | "x86.avx512.vpermi2var.q.512"
        | "x86.avx512.vpermi2var.d.256"
        | "x86.avx512.vpermi2var.d.128"
        | "x86.avx512.vpermi2var.q.256"
        | "x86.avx512.vpermi2var.q.128" => {
            let (x, ix, y) = (a[0].lanes()?, a[1].lanes()?, a[2].lanes()?);
            let k = x.len();
            let mut r = vec![];
            for i in ix.iter() {
                let i = cst(i.t()?).ok_or(Stop::Unsup("symbolic permute".into()))? as usize & (2 * k - 1);
                r.push(if i < k { x[i].clone() } else { y[i - k].clone() });
            }
            return Ok(agg(r));
        }
        "x86.avx2.permd" | "x86.avx512.permvar.si.512" | "x86.avx512.permvar.di.512" | "x86.avx512.permvar.di.256" => {
            let (x, ix) = (a[0].lanes()?, a[1].lanes()?);
            let k = x.len();
            let mut r = vec![];
            for i in ix.iter() {
                let i = cst(i.t()?).ok_or(Stop::Unsup("symbolic permute".into()))? as usize & (k - 1);
                r.push(x[i].clone());
            }
            return Ok(agg(r));
        }
        _ => {}
    }
    // shifts by an immediate count
    let shifts: &[(&str, u8)] = &[("pslli.", 0), ("psrli.", 1), ("psrai.", 2)];
    for (s, kind) in shifts {
        if n.starts_with("x86.") && n.contains(s) {
            let l = a[0].lanes()?;
            let k = cst(a[1].t()?).ok_or(Stop::Unsup("symbolic shift".into()))?;
            let mut r = vec![];
            for x in l.iter() {
                let x = x.t()?;
                let ww = w(x);
                let kk = c(k.min(ww as u128), ww);
                r.push(vt(match kind {
                    0 => shl(x, kk),
                    1 => lshr(x, kk),
                    _ => ashr(x, kk),
                }));
            }
            return Ok(agg(r));
        }
    }
    if n.starts_with("aarch64.neon.tbl1") {
        let (x, ix) = (a[0].lanes()?, a[1].lanes()?);
        let mut r = vec![];
        for i in ix.iter() {
            let i = cst(i.t()?).ok_or(Stop::Unsup("symbolic tbl".into()))? as usize;
            r.push(if i < x.len() { x[i].clone() } else { vt(c(0, 8)) });
        }
        return Ok(agg(r));
    }
    if n.starts_with("aarch64.neon.vsli") || n.starts_with("aarch64.neon.vsri") {
        let left = n.contains("vsli");
        let (x, y) = (a[0].lanes()?, a[1].lanes()?);
        let k = cst(a[2].t()?).ok_or(Stop::Unsup("symbolic shift".into()))? as u16;
        let mut r = vec![];
        for (p, q) in x.iter().zip(y.iter()) {
            let (p, q) = (p.t()?, q.t()?);
            let ww = w(p);
            r.push(vt(if left {
                if k == 0 {
                    q
                } else {
                    cat(&[ext(p, 0, k), ext(q, 0, ww - k)])
                }
            } else if k == ww {
                p
            } else {
                cat(&[ext(q, k, ww - k), ext(p, ww - k, k)])
            }));
        }
        return Ok(agg(r));
    }
    Err(Stop::Unsup(format!("intrinsic llvm.{}", n)))
}
