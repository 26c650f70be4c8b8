//! Hash-consed bit-vector terms with a normalising constructor for every
//! operation. A term is meant to denote the same value as the plain SMT-LIB
//! operation it is built from; `certify.rs` hands the rewrites that were
//! actually used in a run to the solver.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u8(*c)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// Little-endian load of n bytes at 64-bit index from byte array a.
    Arr(u32, T, u8),
    /// constant + sum of coef*term (mod 2^w)
    Sum(u128, Box<[(T, u128)]>),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    And(Box<[T]>),
    Or(Box<[T]>),
    Xor(Box<[T]>),
    /// bits lo..lo+w
    Ext(T, u16),
    /// least significant part first
    Cat(Box<[T]>),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Popcnt(T),
    Ctlz(T),
    Cttz(T),
    /// word idx of an uninterpreted (or specified) multi-result function
    Uf(u32, Box<[T]>, u32),
}

pub struct Node {
    pub op: Op,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub tz: u8,
    pub sec: bool,
    /// involves memory contents or uninterpreted results
    pub opq: bool,
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
}
pub struct ArrInfo {
    pub name: String,
    pub secret: bool,
}
#[derive(Clone)]
pub struct UfInfo {
    pub name: String,
    pub argw: Vec<u16>,
    pub resw: u16,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<(u64, u16), Vec<u32>>,
    pub vars: Vec<VarInfo>,
    pub arrs: Vec<ArrInfo>,
    pub ufs: Vec<UfInfo>,
    pub var_range: FxMap<u32, (u128, u128, u8, bool)>,
    pub log: Option<Vec<(RawOp, T)>>,
    pub logged: FxSet<(RawOp, T)>,
    pub rewrites: u64,
}

/// The operation as requested, before normalisation (for certification).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RawOp {
    pub name: &'static str,
    pub args: Box<[T]>,
    pub p: u32,
    pub w: u16,
}

thread_local! {
    static CTX: UnsafeCell<Ctx> = UnsafeCell::new(Ctx::new());
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            map: Default::default(),
            vars: vec![],
            arrs: vec![],
            ufs: vec![],
            var_range: Default::default(),
            log: None,
            logged: Default::default(),
            rewrites: 0,
        }
    }
}

#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    CTX.with(|c| unsafe { &mut *c.get() })
}
pub fn reset() {
    *ctx() = Ctx::new();
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn w(t: T) -> u16 {
    ctx().nodes[t.0 as usize].w
}
#[inline]
pub fn op(t: T) -> &'static Op {
    // Nodes are never mutated or removed before reset(); the Vec may move its
    // elements when it grows, so callers clone what they keep across interning.
    unsafe { &*(&ctx().nodes[t.0 as usize].op as *const Op) }
}
#[inline]
pub fn node(t: T) -> &'static Node {
    unsafe { &*(&ctx().nodes[t.0 as usize] as *const Node) }
}
#[inline]
pub fn cst(t: T) -> Option<u128> {
    match op(t) {
        Op::Const(c) => Some(*c),
        _ => None,
    }
}
pub fn hi(t: T) -> u128 {
    node(t).hi
}
pub fn lo(t: T) -> u128 {
    node(t).lo
}
pub fn tz(t: T) -> u32 {
    node(t).tz as u32
}
pub fn secret(t: T) -> bool {
    node(t).sec
}

fn hash_op(op: &Op) -> u64 {
    use std::hash::Hash;
    let mut h = Fx::default();
    op.hash(&mut h);
    h.finish()
}

fn intern(op: Op, w: u16) -> T {
    let c = ctx();
    let key = (hash_op(&op), w);
    if let Some(v) = c.map.get(&key) {
        for &i in v {
            if c.nodes[i as usize].op == op {
                return T(i);
            }
        }
    }
    let (mut lo, mut hi, mut tz, sec) = info(&op, w);
    let m = mask(w);
    if w <= 128 {
        hi = hi.min(m);
        if lo > hi {
            lo = 0;
            hi = m;
        }
    }
    tz = tz.min(w.min(255) as u8);
    let id = c.nodes.len() as u32;
    let opq = match &op {
        Op::Arr(..) | Op::Uf(..) => true,
        o => {
            let mut k = vec![];
            op_children(o, &mut k);
            k.iter().any(|x| c.nodes[x.0 as usize].opq)
        }
    };
    c.nodes.push(Node { op, w, lo, hi, tz, sec, opq });
    c.map.entry(key).or_default().push(id);
    T(id)
}

fn tz128(c: u128, w: u16) -> u8 {
    if c == 0 {
        w.min(255) as u8
    } else {
        c.trailing_zeros().min(255) as u8
    }
}

fn info(op: &Op, w: u16) -> (u128, u128, u8, bool) {
    let m = mask(w);
    match op {
        Op::Const(c) => (*c, *c, tz128(*c, w), false),
        Op::Var(v) => match ctx().var_range.get(v) {
            Some(&(l, h, z, s)) => (l, h, z, s),
            None => (0, m, 0, false),
        },
        Op::Arr(a, i, _) => (0, m, 0, ctx().arrs[*a as usize].secret || secret(*i)),
        Op::Sum(c, ts) => {
            let mut z = tz128(*c, w);
            let mut sec = false;
            let half = 1u128 << (w - 1).min(127);
            let mut l: Option<i128> = None;
            let mut h: Option<i128> = None;
            let lim: i128 = 1 << 100;
            if w <= 64 {
                let c0 = if *c >= half { *c as i128 - (m as i128 + 1) } else { *c as i128 };
                // try with the constant taken as positive and as negative
                for cc in [*c as i128, c0] {
                    let mut ll = cc;
                    let mut hh = cc;
                    let mut ok = true;
                    for (t, k) in ts.iter() {
                        let k = if *k >= half { *k as i128 - (m as i128 + 1) } else { *k as i128 };
                        let (tl, th) = (lo_i(*t), hi_i(*t));
                        let (a, b) = match (tl.checked_mul(k), th.checked_mul(k)) {
                            (Some(a), Some(b)) => (a, b),
                            _ => {
                                ok = false;
                                break;
                            }
                        };
                        let (a, b) = if a <= b { (a, b) } else { (b, a) };
                        if a.abs() > lim || b.abs() > lim {
                            ok = false;
                            break;
                        }
                        ll += a;
                        hh += b;
                    }
                    if ok && ll >= 0 && hh <= m as i128 {
                        l = Some(ll);
                        h = Some(hh);
                        break;
                    }
                }
            }
            for (t, k) in ts.iter() {
                z = z.min((node(*t).tz as u32 + k.trailing_zeros()).min(255) as u8);
                sec |= secret(*t);
            }
            match (l, h) {
                (Some(l), Some(h)) => (l as u128, h as u128, z, sec),
                _ => (0, m, z, sec),
            }
        }
        Op::Mul(a, b) => (0, m, (node(*a).tz.saturating_add(node(*b).tz)).min(w as u8), secret(*a) || secret(*b)),
        Op::UDiv(a, b) => (0, if lo(*b) > 0 { hi(*a) / lo(*b) } else { m }, 0, secret(*a) || secret(*b)),
        Op::URem(a, b) => {
            (0, if lo(*b) > 0 { hi(*a).min(hi(*b) - 1) } else { m }, 0, secret(*a) || secret(*b))
        }
        Op::SDiv(a, b) | Op::SRem(a, b) => (0, m, 0, secret(*a) || secret(*b)),
        Op::And(ts) => {
            let h = ts.iter().map(|t| hi(*t)).min().unwrap();
            (0, h, ts.iter().map(|t| node(*t).tz).max().unwrap(), ts.iter().any(|t| secret(*t)))
        }
        Op::Or(ts) | Op::Xor(ts) => {
            let h = ts.iter().fold(0, |a, t| a | hi(*t));
            let h = if h == 0 { 0 } else { mask((128 - h.leading_zeros()) as u16) };
            let l = if matches!(op, Op::Or(_)) { ts.iter().map(|t| lo(*t)).max().unwrap() } else { 0 };
            (l, h, ts.iter().map(|t| node(*t).tz).min().unwrap(), ts.iter().any(|t| secret(*t)))
        }
        Op::Ext(t, l) => {
            let n = node(*t);
            let z = (n.tz as i32 - *l as i32).max(0) as u8;
            if n.w <= 128 {
                let hh = n.hi >> l;
                let ll = n.lo >> l;
                if hh <= m {
                    (ll, hh, z, n.sec)
                } else if (hh >> w) == (ll >> w) && w < 128 {
                    (ll & m, hh & m, z, n.sec)
                } else {
                    (0, m, z, n.sec)
                }
            } else {
                (0, m, z, n.sec)
            }
        }
        Op::Cat(ts) => {
            let sec = ts.iter().any(|t| secret(*t));
            let mut z = 0u32;
            for t in ts.iter() {
                let n = node(*t);
                z += (n.tz as u32).min(n.w as u32);
                if (n.tz as u16) < n.w {
                    break;
                }
            }
            if w > 128 {
                return (0, !0, z.min(255) as u8, sec);
            }
            let (mut l, mut h) = (0u128, 0u128);
            let mut s = 0;
            for t in ts.iter() {
                l |= lo(*t) << s;
                h |= hi(*t) << s;
                s += crate::term::w(*t);
            }
            // lo/hi of parts combine lexicographically; bounding each part
            // separately is sound.
            (l, h, z.min(255) as u8, sec)
        }
        Op::Ite(c, a, b) => (
            lo(*a).min(lo(*b)),
            hi(*a).max(hi(*b)),
            node(*a).tz.min(node(*b).tz),
            secret(*c) || secret(*a) || secret(*b),
        ),
        Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) => (0, 1, 0, secret(*a) || secret(*b)),
        Op::Shl(a, b) => (0, m, node(*a).tz, secret(*a) || secret(*b)),
        Op::Lshr(a, b) => (0, hi(*a), 0, secret(*a) || secret(*b)),
        Op::Ashr(a, b) => (0, m, 0, secret(*a) || secret(*b)),
        Op::Popcnt(a) | Op::Ctlz(a) | Op::Cttz(a) => (0, (crate::term::w(*a) as u128).min(m), 0, secret(*a)),
        Op::Uf(_, args, _) => (0, m, 0, args.iter().any(|t| secret(*t))),
    }
}
fn lo_i(t: T) -> i128 {
    let l = lo(t);
    l.min(1 << 120) as i128
}
fn hi_i(t: T) -> i128 {
    let h = hi(t);
    h.min(1 << 120) as i128
}

// ---------------------------------------------------------------- leaves

pub fn c(v: u128, w: u16) -> T {
    debug_assert!(w <= 128 && w > 0);
    intern(Op::Const(v & mask(w)), w)
}
pub fn c64(v: u64) -> T {
    c(v as u128, 64)
}
pub fn tru() -> T {
    c(1, 1)
}
pub fn fls() -> T {
    c(0, 1)
}
pub fn is_true(t: T) -> bool {
    cst(t) == Some(1) && w(t) == 1
}
pub fn is_false(t: T) -> bool {
    cst(t) == Some(0) && w(t) == 1
}
pub fn wide_const_zero(w: u16) -> T {
    if w <= 128 {
        c(0, w)
    } else {
        let mut parts = vec![];
        let mut r = w;
        while r > 0 {
            let k = r.min(128);
            parts.push(c(0, k));
            r -= k;
        }
        intern(Op::Cat(parts.into()), w)
    }
}
pub fn var(name: &str, w: u16) -> T {
    var_r(name, w, 0, mask(w), 0, false)
}
pub fn secret_var(name: &str, w: u16) -> T {
    var_r(name, w, 0, mask(w), 0, true)
}
/// A fresh variable whose range [lo,hi] and known trailing zero bits are global
/// assumptions (`var_assumptions` gives them to the solver).
pub fn var_r(name: &str, w: u16, lo: u128, hi: u128, tz: u8, sec: bool) -> T {
    let cx = ctx();
    let id = cx.vars.len() as u32;
    cx.vars.push(VarInfo { name: format!("{}!{}", name, id), w });
    cx.var_range.insert(id, (lo, hi, tz, sec));
    intern(Op::Var(id), w)
}
pub fn var_assumption(t: T) -> T {
    let Op::Var(v) = *op(t) else { panic!() };
    let (l, h, z, _) = ctx().var_range[&v];
    let ww = w(t);
    let mut r = tru();
    // Build without range simplification.
    if l > 0 {
        r = and2(r, not(intern(Op::Ult(t, c(l, ww)), 1)));
    }
    if h < mask(ww) {
        r = and2(r, not(intern(Op::Ult(c(h, ww), t), 1)));
    }
    if z > 0 {
        r = and2(r, intern(Op::Eq(intern(Op::Ext(t, 0), z as u16), c(0, z as u16)), 1));
    }
    r
}
pub fn new_arr(name: &str, secret: bool) -> u32 {
    let cx = ctx();
    cx.arrs.push(ArrInfo { name: format!("{}!{}", name, cx.arrs.len()), secret });
    cx.arrs.len() as u32 - 1
}
pub fn arr(a: u32, idx: T, n: u8) -> T {
    debug_assert!(w(idx) == 64);
    intern(Op::Arr(a, idx, n), 8 * n as u16)
}
pub fn new_uf(name: &str, argw: Vec<u16>, resw: u16) -> u32 {
    let cx = ctx();
    if let Some(i) = cx.ufs.iter().position(|u| u.name == name) {
        return i as u32;
    }
    cx.ufs.push(UfInfo { name: name.to_string(), argw, resw });
    cx.ufs.len() as u32 - 1
}
pub fn uf(f: u32, args: Vec<T>, idx: u32) -> T {
    let u = &ctx().ufs[f as usize];
    let rw = u.resw;
    debug_assert_eq!(u.argw.len(), args.len());
    for (a, ww) in args.iter().zip(&u.argw) {
        assert_eq!(w(*a), *ww, "uf arg width");
    }
    intern(Op::Uf(f, args.into(), idx), rw)
}

fn rec(name: &'static str, args: &[T], p: u32, w: u16, r: T) -> T {
    let cx = ctx();
    if cx.log.is_some() {
        cx.rewrites += 1;
        let ro = RawOp { name, args: args.into(), p, w };
        if cx.logged.insert((ro.clone(), r)) {
            cx.log.as_mut().unwrap().push((ro, r));
        }
    }
    r
}

// ---------------------------------------------------------------- sums

fn coef_view(t: T) -> (T, u32) {
    // t == 2^k * u (mod 2^w) ?
    if let Op::Cat(ps) = op(t) {
        let ps = ps.clone();
        if ps.len() >= 2 {
            if let Some(0) = cst(ps[0]) {
                let k = w(ps[0]);
                let ww = w(t);
                if ps.len() == 2 {
                    if let Op::Ext(x, 0) = *op(ps[1]) {
                        if w(x) == ww {
                            return (x, k as u32);
                        }
                    }
                }
                let mut v: Vec<T> = ps[1..].to_vec();
                if ww <= 128 {
                    v.push(c(0, k));
                    return (cat(&v), k as u32);
                }
            }
        }
    }
    (t, 0)
}

fn lin(t: T, k: u128, m: u128, cc: &mut u128, acc: &mut Vec<(T, u128)>) {
    if k & m == 0 {
        return;
    }
    match op(t) {
        Op::Const(v) => *cc = cc.wrapping_add(v.wrapping_mul(k)) & m,
        Op::Sum(c0, ts) => {
            *cc = cc.wrapping_add(c0.wrapping_mul(k)) & m;
            for (u, j) in ts.iter() {
                acc.push((*u, j.wrapping_mul(k) & m));
            }
        }
        Op::Cat(_) => {
            let (u, s) = coef_view(t);
            if s > 0 {
                lin(u, (k << s) & m, m, cc, acc)
            } else {
                acc.push((t, k))
            }
        }
        Op::Xor(ts) if ts.len() == 2 && cst(ts[0]).or(cst(ts[1])) == Some(m) => {
            // not x = -x - 1
            let x = if cst(ts[0]).is_some() { ts[1] } else { ts[0] };
            *cc = cc.wrapping_sub(k) & m;
            lin(x, k.wrapping_neg() & m, m, cc, acc)
        }
        Op::Ext(x, 0) if matches!(op(*x), Op::Sum(..)) && w(t) <= 32 && !node(*x).opq => {
            // truncation commutes with addition
            if let Op::Sum(c0, ts) = op(*x) {
                *cc = cc.wrapping_add(c0.wrapping_mul(k)) & m;
                for (u, j) in ts.iter() {
                    lin(ext(*u, 0, w(t)), j.wrapping_mul(k) & m, m, cc, acc);
                }
            }
        }
        _ => acc.push((t, k)),
    }
}

fn mk_sum(mut cc: u128, mut acc: Vec<(T, u128)>, ww: u16) -> T {
    let m = mask(ww);
    acc.sort_unstable_by_key(|x| x.0);
    let mut out: Vec<(T, u128)> = Vec::with_capacity(acc.len());
    for (t, k) in acc {
        if let Some(l) = out.last_mut() {
            if l.0 == t {
                l.1 = l.1.wrapping_add(k) & m;
                continue;
            }
        }
        out.push((t, k & m));
    }
    out.retain(|x| x.1 != 0);
    cc &= m;
    if out.is_empty() {
        return c(cc, ww);
    }
    if out.len() == 1 && cc == 0 {
        let (t, k) = out[0];
        if k == 1 {
            return t;
        }
        if k.is_power_of_two() {
            let s = k.trailing_zeros() as u16;
            return cat(&[c(0, s), ext(t, 0, ww - s)]);
        }
    }
    if out.len() == 1 && cc == m && out[0].1 == m {
        return intern_xor(vec![out[0].0, c(m, ww)], ww);
    }
    intern(Op::Sum(cc, out.into()), ww)
}

pub fn sum_lin(cc: u128, ts: &[(T, u128)], ww: u16) -> T {
    let m = mask(ww);
    let mut k = cc & m;
    let mut acc = Vec::with_capacity(ts.len() + 2);
    for (t, j) in ts {
        lin(*t, *j & m, m, &mut k, &mut acc);
    }
    mk_sum(k, acc, ww)
}

/// Segment view used for disjoint-bits merging: list of (lo, width, part).
fn segs(t: T) -> Vec<(u16, u16, T)> {
    match op(t) {
        Op::Cat(ps) => {
            let mut o = 0;
            ps.iter()
                .map(|p| {
                    let r = (o, w(*p), *p);
                    o += w(*p);
                    r
                })
                .collect()
        }
        _ => vec![(0, w(t), t)],
    }
}
fn is_zero(t: T) -> bool {
    cst(t) == Some(0)
}
/// If no bit position is possibly non-zero in two operands, their or/xor/sum.
fn try_disjoint(ts: &[T], ww: u16) -> Option<T> {
    let mut pieces: Vec<(u16, u16, T)> = vec![];
    for t in ts {
        for s in segs(*t) {
            if is_zero(s.2) {
                continue;
            }
            if let Some(v) = cst(s.2) {
                // shrink constants to their set bits span
                let l = v.trailing_zeros() as u16;
                let h = 128 - v.leading_zeros() as u16;
                pieces.push((s.0 + l, h - l, c(v >> l, h - l)));
            } else {
                pieces.push(s);
            }
        }
    }
    pieces.sort_unstable_by_key(|p| p.0);
    let mut out = vec![];
    let mut pos = 0;
    for (o, n, p) in pieces {
        if o < pos {
            return None;
        }
        if o > pos {
            push_zero(&mut out, o - pos);
        }
        out.push(p);
        pos = o + n;
    }
    if pos < ww {
        push_zero(&mut out, ww - pos);
    }
    Some(cat(&out))
}
fn push_zero(v: &mut Vec<T>, mut n: u16) {
    while n > 0 {
        let k = n.min(128);
        v.push(c(0, k));
        n -= k;
    }
}
fn has_zero_part(t: T) -> bool {
    match op(t) {
        Op::Cat(ps) => ps.iter().any(|p| is_zero(*p)),
        Op::Const(_) => true,
        _ => false,
    }
}

pub fn add(a: T, b: T) -> T {
    debug_assert_eq!(w(a), w(b));
    let ww = w(a);
    if is_zero(a) {
        return b;
    }
    if is_zero(b) {
        return a;
    }
    if ww == 1 {
        return xor2(a, b);
    }
    if matches!(op(a), Op::Cat(_)) && matches!(op(b), Op::Cat(_)) && has_zero_part(a) && has_zero_part(b) {
        if let Some(r) = try_disjoint(&[a, b], ww) {
            return rec("add", &[a, b], 0, ww, r);
        }
    }
    let r = sum_lin(0, &[(a, 1), (b, 1)], ww);
    rec("add", &[a, b], 0, ww, r)
}
pub fn sub(a: T, b: T) -> T {
    let ww = w(a);
    if is_zero(b) {
        return a;
    }
    if ww == 1 {
        return xor2(a, b);
    }
    let r = sum_lin(0, &[(a, 1), (b, mask(ww))], ww);
    rec("sub", &[a, b], 0, ww, r)
}
pub fn addc(a: T, k: u64) -> T {
    add(a, c(k as u128, w(a)))
}
pub fn neg(a: T) -> T {
    sub(c(0, w(a)), a)
}
pub fn mul(a: T, b: T) -> T {
    let ww = w(a);
    let r = match (cst(a), cst(b)) {
        (Some(x), Some(y)) => c(x.wrapping_mul(y), ww),
        (Some(x), None) => sum_lin(0, &[(b, x)], ww),
        (None, Some(y)) => sum_lin(0, &[(a, y)], ww),
        _ => intern(if a <= b { Op::Mul(a, b) } else { Op::Mul(b, a) }, ww),
    };
    rec("mul", &[a, b], 0, ww, r)
}
pub fn udiv(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(y) = cst(b) {
        if y != 0 {
            if let Some(x) = cst(a) {
                return c(x / y, ww);
            }
            if y.is_power_of_two() {
                return lshr(a, c(y.trailing_zeros() as u128, ww));
            }
            if hi(a) < y {
                return c(0, ww);
            }
        }
    }
    intern(Op::UDiv(a, b), ww)
}
pub fn urem(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(y) = cst(b) {
        if y != 0 {
            if let Some(x) = cst(a) {
                return c(x % y, ww);
            }
            if y == 1 {
                return c(0, ww);
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u16;
                return zext(ext(a, 0, k), ww);
            }
            if hi(a) < y {
                return a;
            }
        }
    }
    intern(Op::URem(a, b), ww)
}
pub fn sext_c(v: u128, w: u16) -> i128 {
    if w == 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}
pub fn sdiv(a: T, b: T) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (cst(a), cst(b)) {
        if y != 0 {
            return c(sext_c(x, ww).wrapping_div(sext_c(y, ww)) as u128, ww);
        }
    }
    intern(Op::SDiv(a, b), ww)
}
pub fn srem(a: T, b: T) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (cst(a), cst(b)) {
        if y != 0 {
            return c(sext_c(x, ww).wrapping_rem(sext_c(y, ww)) as u128, ww);
        }
    }
    intern(Op::SRem(a, b), ww)
}

// ---------------------------------------------------------------- bitwise

pub fn not(a: T) -> T {
    xor2(a, c(mask(w(a)), w(a)))
}
pub fn and2(a: T, b: T) -> T {
    bitw(0, &[a, b])
}
pub fn or2(a: T, b: T) -> T {
    bitw(1, &[a, b])
}
pub fn xor2(a: T, b: T) -> T {
    bitw(2, &[a, b])
}
pub fn and_all(ts: &[T]) -> T {
    if ts.is_empty() {
        tru()
    } else {
        bitw(0, ts)
    }
}
pub fn or_all(ts: &[T]) -> T {
    if ts.is_empty() {
        fls()
    } else {
        bitw(1, ts)
    }
}

fn intern_xor(mut v: Vec<T>, ww: u16) -> T {
    v.sort_unstable();
    intern(Op::Xor(v.into()), ww)
}

fn is_not(t: T) -> Option<T> {
    if let Op::Xor(ts) = op(t) {
        if ts.len() == 2 {
            let m = mask(w(t));
            if cst(ts[0]) == Some(m) {
                return Some(ts[1]);
            }
            if cst(ts[1]) == Some(m) {
                return Some(ts[0]);
            }
        }
    }
    None
}

/// kind 0 = and, 1 = or, 2 = xor
fn bitw(kind: u8, args: &[T]) -> T {
    let ww = w(args[0]);
    let name = ["and", "or", "xor"][kind as usize];
    let r = bitw0(kind, args, ww);
    rec(name, args, 0, ww, r)
}
fn bitw0(kind: u8, args: &[T], ww: u16) -> T {
    let m = mask(ww);
    if ww > 128 {
        return bitw_wide(kind, args, ww);
    }
    let mut k: u128 = if kind == 0 { m } else { 0 };
    let mut v: Vec<T> = Vec::with_capacity(args.len());
    for a in args {
        debug_assert_eq!(w(*a), ww);
        match op(*a) {
            Op::Const(x) => match kind {
                0 => k &= x,
                1 => k |= x,
                _ => k ^= x,
            },
            Op::And(ts) if kind == 0 => v.extend_from_slice(ts),
            Op::Or(ts) if kind == 1 => v.extend_from_slice(ts),
            Op::Xor(ts) if kind == 2 => v.extend_from_slice(ts),
            _ => v.push(*a),
        }
    }
    // nested constants
    let mut i = 0;
    while i < v.len() {
        if let Op::Const(x) = op(v[i]) {
            match kind {
                0 => k &= x,
                1 => k |= x,
                _ => k ^= x,
            }
            v.swap_remove(i);
        } else {
            i += 1;
        }
    }
    if kind == 0 && k == 0 {
        return c(0, ww);
    }
    if kind == 1 && k == m {
        return c(m, ww);
    }
    v.sort_unstable();
    if kind == 2 {
        let mut o: Vec<T> = Vec::with_capacity(v.len());
        for t in v {
            if o.last() == Some(&t) {
                o.pop();
            } else {
                o.push(t);
            }
        }
        v = o;
    } else {
        v.dedup();
        if v.len() <= 64 {
            // complements
            for t in &v {
                if let Some(x) = is_not(*t) {
                    if v.binary_search(&x).is_ok() {
                        return if kind == 0 { c(0, ww) } else { c(m, ww) };
                    }
                }
            }
        }
    }
    if v.is_empty() {
        return c(k, ww);
    }
    let ident = if kind == 0 { m } else { 0 };
    if v.len() == 1 && k == ident {
        return v[0];
    }
    if ww == 1 {
        if k != ident {
            v.push(c(k, ww));
            v.sort_unstable();
            if kind == 2 && v.len() == 2 {
                // not: push through ite with constant arms, and/or via De Morgan is left alone
                let x = if cst(v[0]).is_some() { v[1] } else { v[0] };
                if let Op::Ite(cc, a, b) = *op(x) {
                    if cst(a).is_some() || cst(b).is_some() {
                        return ite(cc, not(a), not(b));
                    }
                }
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        return intern(
            match kind {
                0 => Op::And(v.into()),
                1 => Op::Or(v.into()),
                _ => Op::Xor(v.into()),
            },
            ww,
        );
    }
    // and/or with a constant: decompose into segments by runs of the constant
    if kind != 2 && k != ident {
        let x = if v.len() == 1 { v[0] } else { bitw0(kind, &v, ww) };
        let mut parts = vec![];
        let mut pos = 0u16;
        let mut runs = 0;
        while pos < ww {
            let bit = (k >> pos) & 1;
            let mut e = pos;
            while e < ww && (k >> e) & 1 == bit {
                e += 1;
            }
            runs += 1;
            let keep = (bit == 1) == (kind == 0);
            if keep {
                parts.push(ext(x, pos, e - pos));
            } else if kind == 0 {
                parts.push(c(0, e - pos));
            } else {
                parts.push(c(mask(e - pos), e - pos));
            }
            pos = e;
        }
        let _ = runs;
        return cat(&parts);
    }
    // ite with constants arms under bitwise: leave
    // split at common boundaries
    let mut all: Vec<T> = v.clone();
    if k != ident {
        all.push(c(k, ww));
    }
    if v.iter().all(|t| matches!(op(*t), Op::Cat(_))) {
        if let Some(r) = split_common(kind, &v, k, ww) {
            return r;
        }
    }
    if ww > 32 && v.iter().any(|t| matches!(op(*t), Op::Cat(_))) {
        // lanes: split where some operand is put together at a word boundary
        let mut cuts: Vec<u16> = vec![];
        for t in &v {
            if let Op::Cat(_) = op(*t) {
                cuts.extend(boundaries(*t).into_iter().filter(|b| b % 32 == 0 && *b < ww));
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        if !cuts.is_empty() {
            cuts.push(ww);
            let mut parts = vec![];
            let mut pos = 0;
            for b in cuts {
                let n = b - pos;
                let mut xs: Vec<T> = v.iter().map(|t| ext(*t, pos, n)).collect();
                xs.push(c((k >> pos) & mask(n), n));
                parts.push(bitw0(kind, &xs, n));
                pos = b;
            }
            return cat(&parts);
        }
    }
    if kind != 0 && v.len() >= 2 && v.iter().all(|t| has_zero_part(*t)) {
        if let Some(r) = try_disjoint(&all, ww) {
            return r;
        }
    }
    if kind == 0 && v.len() == 2 && v.iter().any(|t| has_zero_part(*t)) {
        // and with a term that has zero segments: those bits are zero
        let (z, o) = if has_zero_part(v[0]) { (v[0], v[1]) } else { (v[1], v[0]) };
        let mut parts = vec![];
        for (l, n, p) in segs(z) {
            if is_zero(p) {
                parts.push(p);
            } else {
                let e = ext(o, l, n);
                parts.push(intern_bitw(0, vec![p, e], n));
            }
        }
        return cat(&parts);
    }
    if all.len() == 1 {
        return all[0];
    }
    all.sort_unstable();
    intern(
        match kind {
            0 => Op::And(all.into()),
            1 => Op::Or(all.into()),
            _ => Op::Xor(all.into()),
        },
        ww,
    )
}
fn intern_bitw(kind: u8, v: Vec<T>, ww: u16) -> T {
    bitw0(kind, &v, ww)
}

fn boundaries(t: T) -> Vec<u16> {
    let mut o = 0;
    let mut r = vec![];
    if let Op::Cat(ps) = op(t) {
        for p in ps.iter() {
            o += w(*p);
            r.push(o);
        }
    } else {
        r.push(w(t));
    }
    r
}

fn split_common(kind: u8, v: &[T], k: u128, ww: u16) -> Option<T> {
    let mut common = boundaries(v[0]);
    for t in &v[1..] {
        let b = boundaries(*t);
        common.retain(|x| b.binary_search(x).is_ok());
    }
    if common.len() <= 1 {
        return None;
    }
    let mut parts = vec![];
    let mut pos = 0;
    for b in common {
        let n = b - pos;
        let mut xs: Vec<T> = v.iter().map(|t| ext(*t, pos, n)).collect();
        xs.push(c((k >> pos) & mask(n), n));
        parts.push(bitw0(kind, &xs, n));
        pos = b;
    }
    debug_assert_eq!(pos, ww);
    Some(cat(&parts))
}

fn bitw_wide(kind: u8, args: &[T], ww: u16) -> T {
    let mut parts = vec![];
    let mut pos = 0;
    while pos < ww {
        let n = (ww - pos).min(64);
        let xs: Vec<T> = args.iter().map(|a| ext(*a, pos, n)).collect();
        parts.push(bitw(kind, &xs));
        pos += n;
    }
    cat(&parts)
}

// ---------------------------------------------------------------- slices

pub fn ext(t: T, lo_: u16, n: u16) -> T {
    let ww = w(t);
    assert!(lo_ + n <= ww && n > 0, "ext {} {} of width {}", lo_, n, ww);
    if lo_ == 0 && n == ww {
        return t;
    }
    let r = ext0(t, lo_, n, ww);
    rec("ext", &[t], lo_ as u32, n, r)
}
fn ext0(t: T, lo_: u16, n: u16, ww: u16) -> T {
    if (lo_ + n) as u32 <= tz(t) {
        return c(0, n);
    }
    match op(t) {
        Op::Const(v) => return c(v >> lo_, n),
        Op::Ext(x, l) => return ext(*x, lo_ + *l, n),
        Op::Cat(ps) => {
            let ps = ps.clone();
            let mut out = vec![];
            let mut pos = 0;
            for p in ps.iter() {
                let pw = w(*p);
                let s = lo_.max(pos);
                let e = (lo_ + n).min(pos + pw);
                if s < e {
                    out.push(ext(*p, s - pos, e - s));
                }
                pos += pw;
            }
            return cat(&out);
        }
        Op::Ite(cc, a, b) => {
            let (cc, a, b) = (*cc, *a, *b);
            return ite(cc, ext(a, lo_, n), ext(b, lo_, n));
        }
        Op::Arr(a, i, _) if lo_ % 8 == 0 && n % 8 == 0 => {
            let (a, i) = (*a, *i);
            return arr(a, addc(i, (lo_ / 8) as u64), (n / 8) as u8);
        }
        Op::Sum(k, ts) => {
            let (k, ts) = (*k, ts.clone());
            let lim = 1u128 << (lo_ + n).min(127);
            if lo_ + n < ww && !node(t).opq && k % lim == 0 {
                // everything but one term lies above the slice
                let v: Vec<(T, u128)> = ts.iter().filter(|(_, j)| j % lim != 0).copied().collect();
                if v.is_empty() {
                    return c(0, n);
                }
                if v.len() == 1 && v[0].1 == 1 && ww <= 128 && hi(v[0].0) < lim {
                    return ext(v[0].0, lo_, n);
                }
            }
            if lo_ == 0 && ww <= 64 && !node(t).opq {
                // the range stays within one block of 2^n: drop the block number
                let q = lo(t) >> n;
                if q != 0 && q == hi(t) >> n {
                    return ext(addc(t, (q << n).wrapping_neg() as u64), 0, n);
                }
            }
            if ww > 32 && lo_ + n <= 32 && n < 32 && !node(t).opq {
                // through the low word, so that slices of one word meet again
                return ext(ext(t, 0, 32), lo_, n);
            }
            if lo_ == 0 && n >= 32 && !node(t).opq {
                let v: Vec<(T, u128)> = ts.iter().map(|(x, j)| (ext(*x, 0, n), *j)).collect();
                return sum_lin(k, &v, n);
            }
            let p = 1u128 << lo_;
            if lo_ > 0 && k % p == 0 && ts.iter().all(|(_, j)| j % p == 0) {
                // (2^lo * y) >> lo, low n bits
                let v: Vec<(T, u128)> = ts.iter().map(|(x, j)| (ext(*x, 0, n), j / p)).collect();
                return sum_lin(k / p, &v, n);
            }
        }
        Op::Xor(ts) if is_not(t).is_some() => {
            let ts = ts.clone();
            let v: Vec<T> = ts.iter().map(|x| ext(*x, lo_, n)).collect();
            return bitw0(2, &v, n);
        }
        _ => {}
    }
    if ww <= 128 {
        if (hi(t) >> lo_) == 0 {
            return c(0, n);
        }
    }
    intern(Op::Ext(t, lo_), n)
}

pub fn cat(parts: &[T]) -> T {
    let r = cat0(parts);
    rec("cat", parts, 0, w(r), r)
}
fn cat0(parts: &[T]) -> T {
    debug_assert!(!parts.is_empty());
    if parts.len() == 1 {
        return parts[0];
    }
    let mut v: Vec<T> = Vec::with_capacity(parts.len());
    for p in parts {
        match op(*p) {
            Op::Cat(ps) => {
                let ps = ps.clone();
                for q in ps.iter() {
                    push_part(&mut v, *q)
                }
            }
            _ => push_part(&mut v, *p),
        }
    }
    if v.len() == 1 {
        return v[0];
    }
    let ww: u16 = v.iter().map(|t| w(*t)).sum();
    // the two parts of a sum
    if ww <= 128 && v.len() == 2 {
        if let Op::Ext(x, k) = *op(v[1]) {
            if k == w(v[0]) && matches!(op(x), Op::Sum(..)) && ext(x, 0, k) == v[0] {
                return ext(x, 0, ww);
            }
        }
    }
    // zero-extension of a truncation that loses nothing
    if ww <= 128 && v.len() == 2 && is_zero(v[1]) {
        if let Op::Ext(x, 0) = *op(v[0]) {
            let k = w(v[0]);
            if w(x) <= 128 && hi(x) <= mask(k) {
                if w(x) == ww {
                    return x;
                } else if w(x) > ww {
                    return ext(x, 0, ww);
                } else {
                    return cat(&[x, c(0, ww - w(x))]);
                }
            }
        }
        // a sum that cannot wrap is the sum of the extended terms
        if ww <= 64 && !node(v[0]).opq {
            if let Some((k, ts)) = sum_nowrap(v[0]) {
                let m = mask(ww);
                let ts: Vec<(T, u128)> = ts.iter().map(|(x, j)| (zext(*x, ww), *j as u128 & m)).collect();
                return sum_lin(k as u128 & m, &ts, ww);
            }
        }
    }
    // common ite condition
    let mut cond: Option<T> = None;
    let mut ok = true;
    for t in &v {
        match *op(*t) {
            Op::Ite(cc, _, _) => match cond {
                None => cond = Some(cc),
                Some(d) if d == cc => {}
                _ => {
                    ok = false;
                    break;
                }
            },
            Op::Const(_) => {}
            _ => {
                ok = false;
                break;
            }
        }
    }
    if ok {
        if let Some(cc) = cond {
            let a: Vec<T> = v.iter().map(|t| if let Op::Ite(_, a, _) = *op(*t) { a } else { *t }).collect();
            let b: Vec<T> = v.iter().map(|t| if let Op::Ite(_, _, b) = *op(*t) { b } else { *t }).collect();
            return ite(cc, cat(&a), cat(&b));
        }
    }
    intern(Op::Cat(v.into()), ww)
}
fn push_part(v: &mut Vec<T>, p: T) {
    if let Some(&l) = v.last() {
        match (op(l), op(p)) {
            (Op::Const(a), Op::Const(b)) if w(l) + w(p) <= 128 => {
                let (a, b) = (*a, *b);
                let n = c(a | (b << w(l)), w(l) + w(p));
                v.pop();
                v.push(n);
                return;
            }
            (Op::Ext(x, lx), Op::Ext(y, ly)) if x == y && *ly == *lx + w(l) => {
                let (x, lx) = (*x, *lx);
                let n = ext(x, lx, w(l) + w(p));
                v.pop();
                push_part(v, n);
                return;
            }
            (Op::Arr(a, i, n), Op::Arr(b, j, m)) if a == b && n + m <= 16 => {
                let (a, i, j, n, m) = (*a, *i, *j, *n, *m);
                if addc(i, n as u64) == j {
                    v.pop();
                    push_part(v, arr(a, i, n + m));
                    return;
                }
            }
            // bitwise nodes cut into slices: not(x) slices
            _ => {}
        }
        if let (Some(a), Some(b)) = (is_not(l), is_not(p)) {
            if let (Op::Ext(x, lx), Op::Ext(y, ly)) = (op(a), op(b)) {
                if x == y && *ly == *lx + w(l) {
                    let n = not(ext(*x, *lx, w(l) + w(p)));
                    v.pop();
                    push_part(v, n);
                    return;
                }
            }
        }
    }
    v.push(p);
}
/// The terms of a sum with signed coefficients, when the sum over the integers
/// stays within 0..2^w (so that the machine addition never wraps).
fn sum_nowrap(t: T) -> Option<(i128, Vec<(T, i128)>)> {
    let Op::Sum(c0, ts) = op(t) else { return None };
    let ww = w(t);
    let m = mask(ww);
    let half = 1u128 << (ww - 1);
    let sg = |x: u128| if x >= half { x as i128 - (m as i128 + 1) } else { x as i128 };
    let v: Vec<(T, i128)> = ts.iter().map(|(x, j)| (*x, sg(*j))).collect();
    for k in [*c0 as i128, sg(*c0)] {
        let (mut l, mut h) = (k, k);
        for (x, j) in &v {
            let (a, b) = (lo_i(*x).checked_mul(*j)?, hi_i(*x).checked_mul(*j)?);
            l += a.min(b);
            h += a.max(b);
            if l.abs() > 1 << 100 || h.abs() > 1 << 100 {
                return None;
            }
        }
        if l >= 0 && h <= m as i128 {
            return Some((k, v));
        }
    }
    None
}
pub fn zext(t: T, ww: u16) -> T {
    let k = w(t);
    assert!(ww >= k);
    if ww == k {
        return t;
    }
    let mut v = vec![t];
    push_zero(&mut v, ww - k);
    cat(&v)
}
pub fn sext(t: T, ww: u16) -> T {
    let k = w(t);
    if ww == k {
        return t;
    }
    if let Some(v) = cst(t) {
        return c(sext_c(v, k) as u128, ww);
    }
    if k <= 128 && hi(t) < (1u128 << (k - 1)) {
        return zext(t, ww);
    }
    let s = ext(t, k - 1, 1);
    let n = ww - k;
    let r = cat(&[t, ite(s, c(mask(n), n), c(0, n))]);
    r
}
pub fn trunc(t: T, ww: u16) -> T {
    ext(t, 0, ww)
}

// ---------------------------------------------------------------- shifts

pub fn shl(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(k) = cst(b) {
        let r = if k == 0 {
            a
        } else if k >= ww as u128 {
            c(0, ww)
        } else {
            let k = k as u16;
            // keep linear structure for sums
            if matches!(op(a), Op::Sum(..)) {
                sum_lin(0, &[(a, 1u128 << k)], ww)
            } else {
                cat(&[c(0, k), ext(a, 0, ww - k)])
            }
        };
        return rec("shl", &[a, b], 0, ww, r);
    }
    if is_zero(a) {
        return a;
    }
    intern(Op::Shl(a, b), ww)
}
pub fn lshr(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(k) = cst(b) {
        let r = if k == 0 {
            a
        } else if k >= ww as u128 {
            c(0, ww)
        } else {
            let k = k as u16;
            cat(&[ext(a, k, ww - k), c(0, k)])
        };
        return rec("lshr", &[a, b], 0, ww, r);
    }
    if is_zero(a) {
        return a;
    }
    intern(Op::Lshr(a, b), ww)
}
pub fn ashr(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(k) = cst(b) {
        if k == 0 {
            return a;
        }
        let k = (k.min(ww as u128 - 1)) as u16;
        return sext(ext(a, k, ww - k), ww);
    }
    intern(Op::Ashr(a, b), ww)
}
/// funnel shifts with constant amount
pub fn fshl(a: T, b: T, k: u32) -> T {
    let ww = w(a);
    let k = (k % ww as u32) as u16;
    if k == 0 {
        return a;
    }
    // high ww bits of (a:b) << k
    cat(&[ext(b, ww - k, k), ext(a, 0, ww - k)])
}
pub fn fshr(a: T, b: T, k: u32) -> T {
    let ww = w(a);
    let k = (k % ww as u32) as u16;
    if k == 0 {
        return b;
    }
    cat(&[ext(b, k, ww - k), ext(a, 0, k)])
}
pub fn bswap(a: T) -> T {
    let n = w(a) / 8;
    let v: Vec<T> = (0..n).rev().map(|i| ext(a, 8 * i, 8)).collect();
    cat(&v)
}

// ---------------------------------------------------------------- control

pub fn ite(cc: T, a: T, b: T) -> T {
    debug_assert_eq!(w(a), w(b));
    if let Some(v) = cst(cc) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let r = ite0(cc, a, b);
    rec("ite", &[cc, a, b], 0, w(a), r)
}
fn ite0(mut cc: T, mut a: T, mut b: T) -> T {
    if let Some(x) = is_not(cc) {
        cc = x;
        std::mem::swap(&mut a, &mut b);
    }
    if let Op::Ite(c2, x, _) = *op(a) {
        if c2 == cc {
            a = x;
        }
    }
    if let Op::Ite(c2, _, y) = *op(b) {
        if c2 == cc {
            b = y;
        }
    }
    if a == b {
        return a;
    }
    let ww = w(a);
    if ww == 1 {
        if is_true(a) {
            return or2(cc, b);
        }
        if is_false(a) {
            return and2(not(cc), b);
        }
        if is_true(b) {
            return or2(not(cc), a);
        }
        if is_false(b) {
            return and2(cc, a);
        }
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if let Op::Ite(d, x, y) = *op(b) {
        if x == a {
            return ite(or2(cc, d), a, y);
        }
    }
    intern(Op::Ite(cc, a, b), ww)
}

pub fn eq(a: T, b: T) -> T {
    debug_assert_eq!(w(a), w(b));
    let r = eq0(a, b);
    rec("eq", &[a, b], 0, 1, r)
}
fn eq0(a: T, b: T) -> T {
    if a == b {
        return tru();
    }
    let ww = w(a);
    if let (Some(x), Some(y)) = (cst(a), cst(b)) {
        return if x == y { tru() } else { fls() };
    }
    if ww == 1 {
        return not(xor2(a, b));
    }
    if ww > 128 {
        let mut parts = vec![];
        let mut pos = 0;
        while pos < ww {
            let n = (ww - pos).min(64);
            parts.push(eq(ext(a, pos, n), ext(b, pos, n)));
            pos += n;
        }
        return and_all(&parts);
    }
    if hi(a) < lo(b) || hi(b) < lo(a) {
        return fls();
    }
    let (x, k) = if cst(a).is_some() { (b, cst(a)) } else { (a, cst(b)) };
    if let Some(k) = k {
        match op(x) {
            Op::Cat(ps) => {
                let ps = ps.clone();
                let mut pos = 0;
                let mut v = vec![];
                for p in ps.iter() {
                    let n = w(*p);
                    v.push(eq(*p, c(k >> pos, n)));
                    pos += n;
                }
                return and_all(&v);
            }
            Op::Ite(cc, p, q) => {
                let (cc, p, q) = (*cc, *p, *q);
                if cst(p).is_some() || cst(q).is_some() {
                    return ite(cc, eq(p, c(k, ww)), eq(q, c(k, ww)));
                }
            }
            Op::Sum(c0, ts) => {
                if ts.len() == 1 && *c0 != 0 && ts[0].1 == 1 {
                    return eq(ts[0].0, c(k.wrapping_sub(*c0), ww));
                }
                if ts.len() == 1 && ts[0].1 == mask(ww) {
                    return eq(ts[0].0, c(c0.wrapping_sub(k), ww));
                }
            }
            _ => {}
        }
        if tz(x) > 0 && k & mask((tz(x) as u16).min(ww)) != 0 {
            return fls();
        }
    }
    if let (Op::Cat(p), Op::Cat(q)) = (op(a), op(b)) {
        // common boundaries
        let _ = (p, q);
        let mut common = boundaries(a);
        let bb = boundaries(b);
        common.retain(|x| bb.binary_search(x).is_ok());
        if common.len() > 1 {
            let mut v = vec![];
            let mut pos = 0;
            for e in common {
                v.push(eq(ext(a, pos, e - pos), ext(b, pos, e - pos)));
                pos = e;
            }
            return and_all(&v);
        }
    }
    if matches!(op(a), Op::Sum(..)) || matches!(op(b), Op::Sum(..)) {
        let m = mask(ww);
        let mut cc = 0u128;
        let mut acc = vec![];
        lin(a, 1, m, &mut cc, &mut acc);
        lin(b, m, m, &mut cc, &mut acc);
        let d = mk_sum(cc, acc, ww);
        if let Some(v) = cst(d) {
            return if v == 0 { tru() } else { fls() };
        }
        if lo(d) > 0 {
            return fls();
        }
        if let Op::Sum(c0, ts) = op(d) {
            let (c0, ts) = (*c0, ts.clone());
            let g = ts.iter().map(|(t, k)| tz(*t) + k.trailing_zeros()).min().unwrap();
            if g > 0 && g < ww as u32 && c0 & mask(g as u16) != 0 {
                return fls();
            }
            if ts.len() == 1 {
                if ts[0].1 == 1 {
                    return eq(ts[0].0, c(c0.wrapping_neg(), ww));
                }
                if ts[0].1 == m {
                    return eq(ts[0].0, c(c0, ww));
                }
            }
            // canonical sign: first coefficient in lower half
            let flip = ts[0].1 > (m >> 1);
            let l = if flip {
                mk_sum(0, ts.iter().map(|(t, k)| (*t, k.wrapping_neg() & m)).collect(), ww)
            } else {
                mk_sum(0, ts.to_vec(), ww)
            };
            let rr = if flip { c(c0, ww) } else { c(c0.wrapping_neg(), ww) };
            return intern(Op::Eq(l, rr), 1);
        }
        if d != a && d != b {
            return eq(d, c(0, ww));
        }
    }
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    intern(Op::Eq(x, y), 1)
}
pub fn ne(a: T, b: T) -> T {
    not(eq(a, b))
}
pub fn ult(a: T, b: T) -> T {
    let r = ult0(a, b);
    rec("ult", &[a, b], 0, 1, r)
}
fn ult0(a: T, b: T) -> T {
    debug_assert_eq!(w(a), w(b));
    let ww = w(a);
    assert!(ww <= 128);
    if a == b || lo(a) >= hi(b) {
        return fls();
    }
    if hi(a) < lo(b) {
        return tru();
    }
    if ww == 1 {
        return and2(not(a), b);
    }
    if cst(b) == Some(1) {
        return eq(a, c(0, ww));
    }
    if cst(a) == Some(0) {
        return ne(b, c(0, ww));
    }
    let top = |t: T| -> u16 {
        // number of known zero top bits that form a separate part
        match op(t) {
            Op::Cat(ps) if is_zero(*ps.last().unwrap()) => w(*ps.last().unwrap()),
            Op::Const(v) => {
                if *v == 0 {
                    ww - 1
                } else {
                    (v.leading_zeros() as u16).saturating_sub(128 - ww)
                }
            }
            _ => 0,
        }
    };
    let k = top(a).min(top(b)).min(ww - 1);
    if k > 0 {
        return ult(ext(a, 0, ww - k), ext(b, 0, ww - k));
    }
    let low = |t: T| -> u16 {
        match op(t) {
            Op::Cat(ps) if is_zero(ps[0]) => w(ps[0]),
            _ => 0,
        }
    };
    // both multiples of 2^k
    let (la, lb) = (low(a), low(b));
    let l = match (cst(a), cst(b)) {
        (Some(v), None) => lb.min(v.trailing_zeros() as u16),
        (None, Some(v)) => la.min(v.trailing_zeros() as u16),
        _ => la.min(lb),
    };
    if l > 0 && l < ww {
        return ult(ext(a, l, ww - l), ext(b, l, ww - l));
    }
    if let (Op::Ite(cc, p, q), Some(_)) = (op(a), cst(b)) {
        if cst(*p).is_some() || cst(*q).is_some() {
            let (cc, p, q) = (*cc, *p, *q);
            return ite(cc, ult(p, b), ult(q, b));
        }
    }
    // x + c < k with no wrap of the sum: x < k - c
    if let (Op::Sum(c0, ts), Some(k)) = (op(a), cst(b)) {
        let (c0, ts) = (*c0, ts.clone());
        if c0 != 0 {
            let base = mk_sum(0, ts.to_vec(), ww);
            if c0 <= mask(ww) >> 1 {
                if hi(base).checked_add(c0).map_or(false, |x| x <= mask(ww)) {
                    return if k <= c0 { fls() } else { ult(base, c(k - c0, ww)) };
                }
            } else {
                let d = c0.wrapping_neg() & mask(ww);
                if lo(base) >= d && k.checked_add(d).map_or(false, |x| x <= mask(ww)) {
                    return ult(base, c(k + d, ww));
                }
            }
        }
    }
    if let (Some(k), Op::Sum(c0, ts)) = (cst(a), op(b)) {
        let (c0, ts) = (*c0, ts.clone());
        if c0 != 0 {
            let base = mk_sum(0, ts.to_vec(), ww);
            if c0 <= mask(ww) >> 1 {
                if hi(base).checked_add(c0).map_or(false, |x| x <= mask(ww)) {
                    return if k < c0 { tru() } else { ult(c(k - c0, ww), base) };
                }
            } else {
                let d = c0.wrapping_neg() & mask(ww);
                if lo(base) >= d && k.checked_add(d).map_or(false, |x| x <= mask(ww)) {
                    return ult(c(k + d, ww), base);
                }
            }
        }
    }
    intern(Op::Ult(a, b), 1)
}
pub fn ule(a: T, b: T) -> T {
    not(ult(b, a))
}
pub fn slt(a: T, b: T) -> T {
    let ww = w(a);
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (cst(a), cst(b)) {
        return if sext_c(x, ww) < sext_c(y, ww) { tru() } else { fls() };
    }
    let half = 1u128 << (ww - 1);
    if hi(a) < half && hi(b) < half {
        return ult(a, b);
    }
    if cst(b) == Some(0) {
        return ext(a, ww - 1, 1);
    }
    intern(Op::Slt(a, b), 1)
}
pub fn popcnt(a: T) -> T {
    if let Some(v) = cst(a) {
        return c(v.count_ones() as u128, w(a));
    }
    // disjoint bits: a constant below a multiple of a power of two
    if let Op::Sum(k, ts) = op(a) {
        if *k != 0 {
            let s = sum_lin(0, ts, w(a));
            if tz(s) < 128 && *k < 1u128 << tz(s) && hi(s) <= mask(w(a)) - *k {
                return add(popcnt(s), c(k.count_ones() as u128, w(a)));
            }
        }
        if let [(x, m)] = &ts[..] {
            if *k == 0 && m.is_power_of_two() && *m > 1 && hi(*x) <= mask(w(a)) / *m {
                return popcnt(*x);
            }
        }
    }
    if let Op::Cat(ps) = op(a) {
        let nz: Vec<T> = ps.iter().filter(|q| !is_zero(**q)).copied().collect();
        if nz.len() > 1 || is_zero(ps[0]) {
            let v: Vec<T> = nz.iter().map(|q| popcnt(zext(*q, w(a)))).collect();
            return v.into_iter().reduce(add).unwrap();
        }
    }
    intern(Op::Popcnt(a), w(a))
}
pub fn ctlz(a: T) -> T {
    let ww = w(a);
    if let Some(v) = cst(a) {
        return c((v.leading_zeros() - (128 - ww as u32)) as u128, ww);
    }
    intern(Op::Ctlz(a), ww)
}
pub fn cttz(a: T) -> T {
    let ww = w(a);
    if let Some(v) = cst(a) {
        return c(v.trailing_zeros().min(ww as u32) as u128, ww);
    }
    intern(Op::Cttz(a), ww)
}
pub fn umin(a: T, b: T) -> T {
    ite(ult(b, a), b, a)
}
pub fn umax(a: T, b: T) -> T {
    ite(ult(a, b), b, a)
}

// ---------------------------------------------------------------- evaluation

pub trait Env {
    fn var(&self, v: u32) -> u128;
    fn arr(&self, a: u32, idx: u64) -> u8;
    fn uf(&self, f: u32, args: &[u128], idx: u32) -> u128;
}

pub struct Eval<'a> {
    pub env: &'a dyn Env,
    pub memo: FxMap<T, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(env: &'a dyn Env) -> Self {
        Eval { env, memo: Default::default() }
    }
    pub fn get(&mut self, t: T) -> u128 {
        // iterative post-order
        if let Some(v) = self.memo.get(&t) {
            return *v;
        }
        let mut stack = vec![t];
        let mut kids = vec![];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            kids.clear();
            children(x, &mut kids);
            let mut ready = true;
            for k in &kids {
                if !self.memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if ready {
                let v = self.compute(x);
                self.memo.insert(x, v);
                stack.pop();
            }
        }
        self.memo[&t]
    }
    fn m(&self, t: &T) -> u128 {
        self.memo[t]
    }
    fn compute(&mut self, t: T) -> u128 {
        let ww = w(t);
        let m = mask(ww);
        let v = match op(t) {
            Op::Const(v) => *v,
            Op::Var(v) => self.env.var(*v),
            Op::Arr(a, i, n) => {
                let i = self.m(i) as u64;
                let mut r = 0u128;
                for k in 0..*n {
                    r |= (self.env.arr(*a, i.wrapping_add(k as u64)) as u128) << (8 * k);
                }
                r
            }
            Op::Sum(k, ts) => ts.iter().fold(*k, |s, (x, j)| s.wrapping_add(self.m(x).wrapping_mul(*j))),
            Op::Mul(a, b) => self.m(a).wrapping_mul(self.m(b)),
            Op::UDiv(a, b) => self.m(a).checked_div(self.m(b)).unwrap_or(m),
            Op::URem(a, b) => self.m(a).checked_rem(self.m(b)).unwrap_or(self.m(a)),
            Op::SDiv(a, b) => {
                let (x, y) = (sext_c(self.m(a), ww), sext_c(self.m(b), ww));
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem(a, b) => {
                let (x, y) = (sext_c(self.m(a), ww), sext_c(self.m(b), ww));
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And(ts) => ts.iter().fold(m, |s, x| s & self.m(x)),
            Op::Or(ts) => ts.iter().fold(0, |s, x| s | self.m(x)),
            Op::Xor(ts) => ts.iter().fold(0, |s, x| s ^ self.m(x)),
            Op::Ext(x, l) => self.m(x) >> l,
            Op::Cat(ps) => {
                let mut r = 0;
                let mut s = 0;
                for p in ps.iter() {
                    if s < 128 {
                        r |= self.m(p) << s;
                    }
                    s += w(*p);
                }
                r
            }
            Op::Ite(cc, a, b) => {
                if self.m(cc) == 1 {
                    self.m(a)
                } else {
                    self.m(b)
                }
            }
            Op::Eq(a, b) => (self.m(a) == self.m(b)) as u128,
            Op::Ult(a, b) => (self.m(a) < self.m(b)) as u128,
            Op::Slt(a, b) => (sext_c(self.m(a), w(*a)) < sext_c(self.m(b), w(*b))) as u128,
            Op::Shl(a, b) => {
                let s = self.m(b);
                if s >= ww as u128 {
                    0
                } else {
                    self.m(a) << s
                }
            }
            Op::Lshr(a, b) => {
                let s = self.m(b);
                if s >= ww as u128 {
                    0
                } else {
                    self.m(a) >> s
                }
            }
            Op::Ashr(a, b) => {
                let s = self.m(b).min(ww as u128 - 1);
                (sext_c(self.m(a), ww) >> s) as u128
            }
            Op::Popcnt(a) => self.m(a).count_ones() as u128,
            Op::Ctlz(a) => (self.m(a).leading_zeros() - (128 - ww as u32)) as u128,
            Op::Cttz(a) => self.m(a).trailing_zeros().min(ww as u32) as u128,
            Op::Uf(f, args, idx) => {
                let v: Vec<u128> = args.iter().map(|a| self.m(a)).collect();
                self.env.uf(*f, &v, *idx)
            }
        };
        v & m
    }
}

pub fn children(t: T, out: &mut Vec<T>) {
    op_children(op(t), out)
}
pub fn op_children(o: &Op, out: &mut Vec<T>) {
    match o {
        Op::Const(_) | Op::Var(_) => {}
        Op::Arr(_, i, _) => out.push(*i),
        Op::Sum(_, ts) => out.extend(ts.iter().map(|x| x.0)),
        Op::And(ts) | Op::Or(ts) | Op::Xor(ts) | Op::Cat(ts) => out.extend(ts.iter()),
        Op::Uf(_, ts, _) => out.extend(ts.iter()),
        Op::Mul(a, b)
        | Op::UDiv(a, b)
        | Op::URem(a, b)
        | Op::SDiv(a, b)
        | Op::SRem(a, b)
        | Op::Eq(a, b)
        | Op::Ult(a, b)
        | Op::Slt(a, b)
        | Op::Shl(a, b)
        | Op::Lshr(a, b)
        | Op::Ashr(a, b) => {
            out.push(*a);
            out.push(*b)
        }
        Op::Ext(a, _) | Op::Popcnt(a) | Op::Ctlz(a) | Op::Cttz(a) => out.push(*a),
        Op::Ite(a, b, c) => {
            out.push(*a);
            out.push(*b);
            out.push(*c)
        }
    }
}

/// All nodes below the roots in topological (id) order.
pub fn reach(roots: &[T]) -> Vec<T> {
    let mut seen: FxSet<T> = Default::default();
    let mut st: Vec<T> = roots.to_vec();
    let mut kids = vec![];
    while let Some(t) = st.pop() {
        if seen.insert(t) {
            kids.clear();
            children(t, &mut kids);
            st.extend_from_slice(&kids);
        }
    }
    let mut v: Vec<T> = seen.into_iter().collect();
    v.sort_unstable();
    v
}

/// Rebuild a term with some nodes replaced.
pub fn subst(roots: &[T], map: &mut FxMap<T, T>) -> Vec<T> {
    for t in reach(roots) {
        if map.contains_key(&t) {
            continue;
        }
        let r = rebuild(t, map);
        map.insert(t, r);
    }
    roots.iter().map(|t| map[t]).collect()
}
pub fn rebuild(t: T, m: &FxMap<T, T>) -> T {
    let ww = w(t);
    let g = |x: &T| m[x];
    let mut kids = vec![];
    children(t, &mut kids);
    if kids.iter().all(|k| m.get(k) == Some(k)) {
        return t;
    }
    match op(t).clone() {
        Op::Const(_) | Op::Var(_) => t,
        Op::Arr(a, i, n) => arr(a, g(&i), n),
        Op::Sum(k, ts) => {
            let v: Vec<(T, u128)> = ts.iter().map(|(x, j)| (g(x), *j)).collect();
            sum_lin(k, &v, ww)
        }
        Op::Mul(a, b) => mul(g(&a), g(&b)),
        Op::UDiv(a, b) => udiv(g(&a), g(&b)),
        Op::URem(a, b) => urem(g(&a), g(&b)),
        Op::SDiv(a, b) => sdiv(g(&a), g(&b)),
        Op::SRem(a, b) => srem(g(&a), g(&b)),
        Op::And(ts) => bitw(0, &ts.iter().map(g).collect::<Vec<_>>()),
        Op::Or(ts) => bitw(1, &ts.iter().map(g).collect::<Vec<_>>()),
        Op::Xor(ts) => bitw(2, &ts.iter().map(g).collect::<Vec<_>>()),
        Op::Ext(x, l) => ext(g(&x), l, ww),
        Op::Cat(ts) => cat(&ts.iter().map(g).collect::<Vec<_>>()),
        Op::Ite(a, b, d) => ite(g(&a), g(&b), g(&d)),
        Op::Eq(a, b) => eq(g(&a), g(&b)),
        Op::Ult(a, b) => ult(g(&a), g(&b)),
        Op::Slt(a, b) => slt(g(&a), g(&b)),
        Op::Shl(a, b) => shl(g(&a), g(&b)),
        Op::Lshr(a, b) => lshr(g(&a), g(&b)),
        Op::Ashr(a, b) => ashr(g(&a), g(&b)),
        Op::Popcnt(a) => popcnt(g(&a)),
        Op::Ctlz(a) => ctlz(g(&a)),
        Op::Cttz(a) => cttz(g(&a)),
        Op::Uf(f, ts, i) => uf(f, ts.iter().map(g).collect(), i),
    }
}

pub fn show(t: T) -> String {
    show_d(t, 5)
}
pub fn show_d(t: T, d: u32) -> String {
    if d == 0 {
        return format!("t{}", t.0);
    }
    let s = |x: &T| show_d(*x, d - 1);
    let l = |ts: &[T]| ts.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(" ");
    match op(t) {
        Op::Const(v) => format!("{:#x}:{}", v, w(t)),
        Op::Var(v) => ctx().vars[*v as usize].name.clone(),
        Op::Arr(a, i, n) => format!("{}[{};{}]", ctx().arrs[*a as usize].name, s(i), n),
        Op::Sum(k, ts) => format!(
            "({:#x}{})",
            k,
            ts.iter().map(|(x, j)| format!(" + {:#x}*{}", j, s(x))).collect::<String>()
        ),
        Op::And(ts) => format!("(and {})", l(ts)),
        Op::Or(ts) => format!("(or {})", l(ts)),
        Op::Xor(ts) => format!("(xor {})", l(ts)),
        Op::Cat(ts) => format!("(cat {})", l(ts)),
        Op::Ext(x, o) => format!("{}[{}+:{}]", s(x), o, w(t)),
        Op::Ite(a, b, e) => format!("(ite {} {} {})", s(a), s(b), s(e)),
        Op::Eq(a, b) => format!("(= {} {})", s(a), s(b)),
        Op::Ult(a, b) => format!("(u< {} {})", s(a), s(b)),
        Op::Slt(a, b) => format!("(s< {} {})", s(a), s(b)),
        Op::Uf(f, ts, i) => format!("{}.{}({})", ctx().ufs[*f as usize].name, i, l(ts)),
        o => format!("{:?}", o),
    }
}
