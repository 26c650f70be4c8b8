//! Deciding that two tuples of terms are equal under a path condition:
//! normal forms first, then concrete refutation, then solver-backed merging of
//! inner nodes (each merge is an unsat query), then one query on the whole.
use crate::smt::{self, Res};
use crate::spec;
use crate::term::*;

pub fn mix(mut h: u64) -> u64 {
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}

#[derive(Clone, Default)]
pub struct RandEnv {
    pub seed: u64,
    pub vars: FxMap<u32, u128>,
    pub arrs: FxMap<(u32, u64), u8>,
}
impl Env for RandEnv {
    fn var(&self, v: u32) -> u128 {
        if let Some(x) = self.vars.get(&v) {
            return *x;
        }
        let a = mix(self.seed.wrapping_mul(31).wrapping_add(v as u64 + 7));
        let b = mix(a ^ 0x9e3779b97f4a7c15);
        let r = ((a as u128) << 64) | b as u128;
        let ww = ctx().vars[v as usize].w;
        match ctx().var_range.get(&v) {
            Some(&(l, h, z, _)) => {
                let s = 1u128 << z.min(127);
                let lo = (l + s - 1) / s;
                let hi = h / s;
                if hi < lo {
                    return l;
                }
                let span = hi - lo + 1;
                let k = if span == 0 { r } else { lo + r % span };
                (k * s) & mask(ww)
            }
            None => r & mask(ww),
        }
    }
    fn arr(&self, a: u32, idx: u64) -> u8 {
        if let Some(x) = self.arrs.get(&(a, idx)) {
            return *x;
        }
        mix(self.seed ^ mix((a as u64) << 40 ^ idx)) as u8
    }
    fn uf(&self, f: u32, args: &[u128], idx: u32) -> u128 {
        spec::eval_uf(f, args, idx)
    }
}

/// A concrete assignment satisfying the conjunction, random elsewhere.
pub fn model(conj: &[T], seed: u64) -> Result<Option<RandEnv>, String> {
    let mut want = vec![];
    let mut n = 0;
    let rs = reach(conj);
    for x in &rs {
        if let Op::Var(_) = op(*x) {
            want.push(*x);
            n += 1;
        }
    }
    let mut arrs = vec![];
    for x in &rs {
        if let Op::Arr(a, i, k) = op(*x) {
            arrs.push((*a, *k));
            want.push(*x);
            want.push(*i);
        }
    }
    let live: Vec<T> = conj.iter().copied().filter(|x| !is_true(*x)).collect();
    if live.is_empty() {
        return Ok(Some(RandEnv { seed, ..Default::default() }));
    }
    match smt::check_model(&live, &want) {
        (Res::Unsat, _) => Ok(None),
        (Res::Unknown, _) => Err("solver gave no answer".into()),
        (Res::Sat, v) => {
            let mut e = RandEnv { seed, ..Default::default() };
            for i in 0..n {
                if let Op::Var(k) = op(want[i]) {
                    e.vars.insert(*k, v[i]);
                }
            }
            for (j, (a, k)) in arrs.iter().enumerate() {
                let (val, idx) = (v[n + 2 * j], v[n + 2 * j + 1] as u64);
                for b in 0..*k as u64 {
                    e.arrs.insert((*a, idx.wrapping_add(b)), (val >> (8 * b)) as u8);
                }
            }
            Ok(Some(e))
        }
    }
}
pub fn holds(e: &RandEnv, conj: &[T]) -> bool {
    let mut ev = Eval::new(e);
    conj.iter().all(|x| ev.get(*x) == 1)
}

/// Several different assignments satisfying pc.
pub fn models(pc: &[T], n: usize, seed: u64) -> Result<Vec<RandEnv>, String> {
    let mut out = vec![];
    let free: Vec<T> = reach(pc).into_iter().filter(|x| matches!(op(*x), Op::Var(_))).collect();
    if free.is_empty() && pc.iter().all(|x| is_true(*x)) {
        for i in 0..n {
            out.push(RandEnv { seed: mix(seed + i as u64), ..Default::default() });
        }
        return Ok(out);
    }
    // plain random tries first
    for i in 0..20 * n {
        if out.len() >= n {
            return Ok(out);
        }
        let e = RandEnv { seed: mix(seed * 1000 + i as u64), ..Default::default() };
        if holds(&e, pc) {
            out.push(e);
        }
    }
    let m = match model(pc, mix(seed + 77))? {
        Some(m) => m,
        None => return Ok(out),
    };
    out.push(m);
    let mut i = 0u64;
    while out.len() < n && i < 2 * n as u64 && !free.is_empty() {
        i += 1;
        let r = mix(seed ^ mix(i));
        let x = free[(r % free.len() as u64) as usize];
        let k = (1 + (r >> 32) % 8).min(w(x) as u64) as u16;
        let p = ((r >> 40) % (w(x) as u64 - k as u64 + 1)) as u16;
        let cnd = eq(ext(x, p, k), c((mix(r) as u128) & mask(k), k));
        let mut q = pc.to_vec();
        q.push(cnd);
        match model(&q, mix(seed + 100 + i)) {
            Ok(Some(m)) => out.push(m),
            _ => {}
        }
    }
    Ok(out)
}

pub enum Verdict {
    Same,
    Diff(RandEnv),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct EqStats {
    pub structural: u64,
    pub by_solver: u64,
    pub merges: u64,
    pub evals: u64,
}

fn differ(e: &RandEnv, l: &[T], r: &[T]) -> bool {
    let mut ev = Eval::new(e);
    l.iter().zip(r).any(|(a, b)| ev.get(*a) != ev.get(*b))
}

/// Are l and r equal in every assignment satisfying pc?
pub fn prove(pc: &[T], l: &[T], r: &[T], seed: u64, st: &mut EqStats) -> Verdict {
    assert_eq!(l.len(), r.len());
    let mut a = vec![];
    let mut b = vec![];
    for (x, y) in l.iter().zip(r) {
        if x != y {
            assert_eq!(w(*x), w(*y), "width");
            a.push(*x);
            b.push(*y);
        }
    }
    if a.is_empty() {
        st.structural += 1;
        return Verdict::Same;
    }
    // concrete refutation
    let ms = match models(pc, 8, seed) {
        Ok(m) => m,
        Err(e) => return Verdict::Unknown(e),
    };
    if ms.is_empty() {
        // the path condition is unsatisfiable
        st.by_solver += 1;
        return Verdict::Same;
    }
    for m in &ms {
        st.evals += 1;
        if differ(m, &a, &b) {
            return Verdict::Diff(m.clone());
        }
    }
    // congruence: the same symbol applied to equal arguments
    {
        let mut memo = Default::default();
        let mut n = 0;
        if a.iter().zip(&b).all(|(x, y)| congruent(pc, *x, *y, &mut memo, &mut n, seed)) {
            st.by_solver += 1;
            st.merges += n;
            return Verdict::Same;
        }
    }
    // models that flip each condition occurring in the terms
    let mut roots = a.clone();
    roots.extend(&b);
    let nodes = reach(&roots);
    let conds: Vec<T> = nodes.iter().copied().filter(|x| w(*x) == 1 && cst(*x).is_none() && !has_uf(*x)).collect();
    for (k, x) in conds.iter().enumerate().take(200) {
        for v in [true, false] {
            let lit = if v { *x } else { not(*x) };
            if ms.iter().any(|m| Eval::new(m).get(lit) == 1) {
                continue;
            }
            let mut q = pc.to_vec();
            q.push(lit);
            if let Ok(Some(m)) = model(&q, mix(seed + 1000 + k as u64)) {
                st.evals += 1;
                if holds(&m, pc) && differ(&m, &a, &b) {
                    return Verdict::Diff(m);
                }
            }
        }
    }
    // expand compression symbols if the two sides use different ones
    let (ea, eb) = {
        let ua: FxSet<T> = reach(&a).into_iter().filter(|x| matches!(op(*x), Op::Uf(..))).collect();
        let ub: FxSet<T> = reach(&b).into_iter().filter(|x| matches!(op(*x), Op::Uf(..))).collect();
        if ua != ub && (ua.is_empty() || ub.is_empty()) {
            let mut all = a.clone();
            all.extend(&b);
            let e = spec::expand(&all);
            (e[..a.len()].to_vec(), e[a.len()..].to_vec())
        } else {
            (a.clone(), b.clone())
        }
    };
    if ea == eb {
        st.structural += 1;
        return Verdict::Same;
    }
    sweep(pc, &ea, &eb, &ms, seed, st)
}

fn congruent(pc: &[T], x: T, y: T, memo: &mut FxMap<(T, T), bool>, n: &mut u64, seed: u64) -> bool {
    if x == y {
        return true;
    }
    if let Some(r) = memo.get(&(x, y)) {
        return *r;
    }
    memo.insert((x, y), false);
    let r = match (op(x), op(y)) {
        (Op::Uf(f, a, i), Op::Uf(g, b, j)) => {
            // all results of one application stand or fall together
            if f == g && i == j && a.len() == b.len() {
                let k0 = (uf(*f, a.to_vec(), 1000), uf(*g, b.to_vec(), 1000));
                match memo.get(&k0) {
                    Some(r) => *r,
                    None => {
                        let r = a.iter().zip(b.iter()).all(|(p, q)| congruent(pc, *p, *q, memo, n, seed));
                        memo.insert(k0, r);
                        r
                    }
                }
            } else {
                false
            }
        }
        _ => {
            if has_uf(x) != has_uf(y) {
                false
            } else if !has_uf(x) {
                if std::env::var("SYMEX_DEBUG").is_ok() {
                    eprintln!("equal? {}\n    vs {}", show_d(x, 6), show_d(y, 6));
                }
                *n += 1;
                matches!(quick_equal(pc, x, y, seed + *n), Q::Eq)
            } else {
                let (mut a, mut b) = (vec![], vec![]);
                children(x, &mut a);
                children(y, &mut b);
                std::mem::discriminant(op(x)) == std::mem::discriminant(op(y))
                    && a.len() == b.len()
                    && {
                        // equal children must mean equal results: same operator and constants
                        let m: FxMap<T, T> = b.iter().copied().zip(a.iter().copied()).collect();
                        rebuild(y, &m) == x && a.iter().zip(&b).all(|(p, q)| congruent(pc, *p, *q, memo, n, seed))
                    }
            }
        }
    };
    memo.insert((x, y), r);
    r
}

pub fn has_uf(x: T) -> bool {
    reach(&[x]).iter().any(|y| matches!(op(*y), Op::Uf(..)))
}

/// Replace everything deeper than `d` below the roots by fresh variables.
fn cut(roots: &[T], d: u32) -> Vec<T> {
    let mut depth: FxMap<T, u32> = Default::default();
    let mut work: Vec<(T, u32)> = roots.iter().map(|x| (*x, 0)).collect();
    while let Some((x, k)) = work.pop() {
        match depth.get(&x) {
            Some(o) if *o <= k => continue,
            _ => {}
        }
        depth.insert(x, k);
        if k < d {
            let mut ks = vec![];
            children(x, &mut ks);
            for y in ks {
                work.push((y, k + 1));
            }
        }
    }
    let mut ids: Vec<T> = depth.keys().copied().collect();
    ids.sort_unstable();
    let mut map: FxMap<T, T> = Default::default();
    for x in ids {
        let mut ks = vec![];
        children(x, &mut ks);
        let y = if ks.is_empty() {
            x
        } else if ks.iter().all(|k| map.contains_key(k)) && depth[&x] < d {
            rebuild(x, &map)
        } else {
            var_like(x)
        };
        map.insert(x, y);
    }
    roots.iter().map(|r| map[r]).collect()
}
fn var_like(x: T) -> T {
    thread_local!(static CUTS: std::cell::RefCell<FxMap<(T, u16), T>> = Default::default());
    let _ = &CUTS;
    var_r("cut", w(x), lo(x), hi(x), tz(x).min(120) as u8, false)
}

enum Q {
    Eq,
    Ne(RandEnv),
    Open,
}
fn timed(q: &[T], ms: u64) -> Res {
    smt::with(|s| {
        let o = s.timeout_ms;
        s.timeout_ms = ms;
        let r = s.check(q, &[]).0;
        s.timeout_ms = o;
        r
    })
}
fn quick_equal(pc: &[T], x: T, y: T, seed: u64) -> Q {
    let mut q = pc.to_vec();
    q.push(ne(x, y));
    let small = reach(&q).len() < 150;
    if small && !has_uf(q[q.len() - 1]) {
        // near the inputs: the whole cones, under the path condition
        let o = smt::with(|s| std::mem::replace(&mut s.timeout_ms, 4000));
        let m = model(&q, mix(seed));
        smt::with(|s| s.timeout_ms = o);
        match m {
            Ok(None) => return Q::Eq,
            Ok(Some(m)) => return Q::Ne(m),
            Err(_) => {}
        }
    }
    for d in [2u32, 4, 7] {
        let cc = cut(&[x, y], d);
        let n = ne(cc[0], cc[1]);
        if is_false(n) || timed(&[n], 1500) == Res::Unsat {
            return Q::Eq;
        }
    }
    if !small && reach(&q).len() < 400 && timed(&q, 3000) == Res::Unsat {
        return Q::Eq;
    }
    Q::Open
}

fn sweep(pc: &[T], l: &[T], r: &[T], ms: &[RandEnv], seed: u64, st: &mut EqStats) -> Verdict {
    let mut roots = l.to_vec();
    roots.extend_from_slice(r);
    let mut ms: Vec<RandEnv> = ms.to_vec();
    let mut proven: FxMap<(T, T), bool> = Default::default();
    let t0 = std::time::Instant::now();
    let mut fails = 0;
    let order = reach(&roots);
    let map = 'again: loop {
        let snap = ms.clone();
        let mut evs: Vec<Eval> = snap.iter().map(|m| Eval::new(m)).collect();
        let mut map: FxMap<T, T> = Default::default();
        let mut classes: FxMap<Vec<u128>, Vec<T>> = Default::default();
        for &x in &order {
            let y = rebuild(x, &map);
            let mut z = y;
            if w(y) > 1 && cst(y).is_none() {
                let sig: Vec<u128> = evs.iter_mut().map(|e| e.get(y)).chain([w(y) as u128]).collect();
                let cl = classes.entry(sig).or_default();
                if !cl.contains(&y) {
                    let mut hit = None;
                    for q in cl.iter().take(3) {
                        match proven.get(&(y, *q)) {
                            Some(true) => {
                                hit = Some(*q);
                                break;
                            }
                            Some(false) => continue,
                            None => {}
                        }
                        if t0.elapsed().as_secs() > 45 || fails > 40 {
                            break;
                        }
                        if std::env::var("SYMEX_DEBUG").is_ok() {
                            eprintln!("merge? {}\n    vs {}", show_d(y, 4), show_d(*q, 4));
                        }
                        match quick_equal(pc, y, *q, seed + proven.len() as u64) {
                            Q::Eq => {
                                st.merges += 1;
                                proven.insert((y, *q), true);
                                hit = Some(*q);
                                break;
                            }
                            Q::Ne(m) => {
                                st.evals += 1;
                                if holds(&m, pc) {
                                    if differ(&m, l, r) {
                                        return Verdict::Diff(m);
                                    }
                                    if ms.len() < 60 {
                                        ms.push(m);
                                        continue 'again;
                                    }
                                }
                                proven.insert((y, *q), false);
                                fails += 1;
                            }
                            Q::Open => {
                                proven.insert((y, *q), false);
                                fails += 1;
                            }
                        }
                    }
                    match hit {
                        Some(q) => z = q,
                        None => cl.push(y),
                    }
                }
            }
            map.insert(x, z);
        }
        break map;
    };
    let mut q = vec![];
    for (a, b) in l.iter().zip(r) {
        let (x, y) = (map[a], map[b]);
        if x != y {
            q.push(ne(x, y));
        }
    }
    if q.is_empty() {
        st.by_solver += 1;
        return Verdict::Same;
    }
    let mut conj = pc.to_vec();
    conj.push(or_all(&q));
    // the original terms decide whether a model is real
    match model(&conj, mix(seed + 5)) {
        Ok(None) => {
            st.by_solver += 1;
            Verdict::Same
        }
        Ok(Some(m)) => {
            if holds(&m, pc) && differ(&m, l, r) {
                return Verdict::Diff(m);
            }
            // symbols were interpreted freely: expand and retry once
            let mut all = l.to_vec();
            all.extend_from_slice(r);
            let e = spec::expand(&all);
            let mut q = vec![];
            for (a, b) in e[..l.len()].iter().zip(&e[l.len()..]) {
                q.push(ne(*a, *b));
            }
            let mut conj = pc.to_vec();
            conj.push(or_all(&q));
            match model(&conj, mix(seed + 6)) {
                Ok(None) => {
                    st.by_solver += 1;
                    Verdict::Same
                }
                Ok(Some(m)) if holds(&m, pc) && differ(&m, l, r) => Verdict::Diff(m),
                _ => Verdict::Unknown("terms differ but no real counterexample was found".into()),
            }
        }
        Err(e) => Verdict::Unknown(e),
    }
}
