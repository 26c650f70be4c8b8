//! The specification as terms.
use crate::oracle;
use crate::term::*;

fn rotr(x: T, k: u16) -> T {
    let n = w(x);
    cat(&[ext(x, k, n - k), ext(x, 0, k)])
}

/// One compression of the 32-bit hash, fully expanded.
pub fn compress32(cv: &[T], m: &[T], blen: T, off: T, flags: T) -> Vec<T> {
    let mut v: Vec<T> = cv.to_vec();
    for i in 0..4 {
        v.push(c(oracle::IV[i] as u128, 32));
    }
    v.push(ext(off, 0, 32));
    v.push(ext(off, 32, 32));
    v.push(blen);
    v.push(flags);
    for r in 0..7 {
        for (i, g) in oracle::G.iter().enumerate() {
            let [a, b, cc, d] = *g;
            v[a] = add(add(v[a], v[b]), m[oracle::SIGMA[r][2 * i]]);
            v[d] = rotr(xor2(v[d], v[a]), 16);
            v[cc] = add(v[cc], v[d]);
            v[b] = rotr(xor2(v[b], v[cc]), 12);
            v[a] = add(add(v[a], v[b]), m[oracle::SIGMA[r][2 * i + 1]]);
            v[d] = rotr(xor2(v[d], v[a]), 8);
            v[cc] = add(v[cc], v[d]);
            v[b] = rotr(xor2(v[b], v[cc]), 7);
        }
    }
    let mut o = vec![];
    for i in 0..8 {
        o.push(xor2(v[i], v[i + 8]));
    }
    for i in 0..8 {
        o.push(xor2(v[i + 8], cv[i]));
    }
    o
}

pub fn compress64(cv: &[T], m: &[T], blen: T, off: T, flags: T) -> Vec<T> {
    let iv = |i: usize| c(oracle::IV64[i] as u128, 64);
    let mut v: Vec<T> = cv.to_vec();
    v.extend([iv(4), iv(5), iv(6), iv(7), iv(0), iv(1), iv(2), iv(3), off, iv(5), blen, flags]);
    for r in 0..8 {
        for (i, g) in oracle::G.iter().enumerate() {
            let [a, b, cc, d] = *g;
            v[a] = add(add(v[a], v[b]), m[oracle::SIGMA[r][2 * i]]);
            v[d] = rotr(xor2(v[d], v[a]), 32);
            v[cc] = add(v[cc], v[d]);
            v[b] = rotr(xor2(v[b], v[cc]), 24);
            v[a] = add(add(v[a], v[b]), m[oracle::SIGMA[r][2 * i + 1]]);
            v[d] = rotr(xor2(v[d], v[a]), 16);
            v[cc] = add(v[cc], v[d]);
            v[b] = rotr(xor2(v[b], v[cc]), 63);
        }
    }
    let mut o = vec![];
    for i in 0..4 {
        o.push(xor2(v[i], v[i + 4]));
    }
    for i in 0..4 {
        o.push(xor2(v[i + 4], cv[i]));
    }
    o.extend(&v[8..16]);
    o
}

// ------------------------------------------------------------ as a symbol

pub const UF32: u32 = 0;
pub const UF64: u32 = 1;
pub const UFSUB: u32 = 2;
/// Must be called once per thread context, before anything else.
pub fn init() {
    reset();
    let mut a = vec![32; 24];
    a.extend([32, 64, 32]);
    assert_eq!(new_uf("C32", a, 32), UF32);
    let mut a = vec![64; 20];
    a.extend([64, 64, 64]);
    assert_eq!(new_uf("C64", a, 64), UF64);
    let mut a = vec![32; 9];
    a.extend([64, 64, 8]);
    assert_eq!(new_uf("SUB", a, 32), UFSUB);
}
/// The chaining value of a complete subtree of 2^level chunks, level >= 1:
/// (key, mode flags, offset, first byte of the message, level). Defined by
/// SUB(l) = parent(SUB(l-1), SUB(l-1)) and SUB(0) = a chunk.
pub fn sub_cv(key: &[T], mode: T, off: T, at: u64, level: u32, m: &Msg) -> Vec<T> {
    if level == 0 {
        return chunk_node(key, mode, off, &m.part(at / 64, at / 64 + 32)).cv();
    }
    let mut a = key.to_vec();
    a.extend([mode, off, c64(at), c(level as u128, 8)]);
    (0..8).map(|i| uf(UFSUB, a.clone(), i)).collect()
}
pub fn c32(cv: &[T], m: &[T], blen: T, off: T, flags: T) -> Vec<T> {
    let mut a = cv.to_vec();
    a.extend_from_slice(m);
    a.extend([blen, off, flags]);
    assert_eq!(a.len(), 27);
    (0..16).map(|i| uf(UF32, a.clone(), i)).collect()
}
pub fn eval_uf(f: u32, a: &[u128], idx: u32) -> u128 {
    if f == UF32 {
        let x: Vec<u32> = a.iter().map(|x| *x as u32).collect();
        oracle::compress32(&x[..8].try_into().unwrap(), &x[8..24].try_into().unwrap(), x[24], a[25] as u64, x[26])[idx as usize] as u128
    } else if f == UFSUB {
        // some function: the job replays what it finds
        let k: [u32; 8] = std::array::from_fn(|i| a[i] as u32);
        let mut b = [0u32; 16];
        b[0] = a[8] as u32;
        b[1] = a[10] as u32;
        b[2] = (a[10] >> 32) as u32;
        oracle::compress32(&k, &b, 99, a[9] as u64, a[11] as u32)[idx as usize] as u128
    } else {
        let x: Vec<u64> = a.iter().map(|x| *x as u64).collect();
        oracle::compress64(&x[..4].try_into().unwrap(), &x[4..20].try_into().unwrap(), x[20], x[21], x[22])[idx as usize] as u128
    }
}

/// Replace every compression symbol by its definition.
pub fn expand(roots: &[T]) -> Vec<T> {
    let mut map: FxMap<T, T> = Default::default();
    let mut done: FxMap<(u32, Vec<T>), Vec<T>> = Default::default();
    for x in reach(roots) {
        let y = match op(x) {
            Op::Uf(f, ks, i) if *f != UFSUB => {
                let nk: Vec<T> = ks.iter().map(|k| map[k]).collect();
                done.entry((*f, nk.clone())).or_insert_with(|| {
                    if *f == UF32 {
                        compress32(&nk[..8], &nk[8..24], nk[24], nk[25], nk[26])
                    } else {
                        compress64(&nk[..4], &nk[4..20], nk[20], nk[21], nk[22])
                    }
                })[*i as usize]
            }
            _ => rebuild(x, &map),
        };
        map.insert(x, y);
    }
    roots.iter().map(|r| map[r]).collect()
}

// ------------------------------------------------------------ the tree

/// A node whose last compression has not been done: what a root needs.
#[derive(Clone)]
pub struct Node {
    pub cv: Vec<T>,
    pub m: Vec<T>,
    pub blen: T,
    pub off: T,
    pub flags: T,
}
impl Node {
    pub fn cv(&self) -> Vec<T> {
        c32(&self.cv, &self.m, self.blen, self.off, self.flags)[..8].to_vec()
    }
    /// 64 bytes of root output at a position.
    pub fn root(&self, pos: T) -> Vec<T> {
        c32(&self.cv, &self.m, self.blen, pos, or2(self.flags, c(oracle::ROOT as u128, 32)))
    }
}
/// A message: bytes of an array, of a length known up to its last block.
#[derive(Clone, Copy)]
pub struct Msg {
    pub arr: u32,
    pub start: u64,
    /// number of blocks (at least 1) and length of the last one (64 bits wide)
    pub blocks: u64,
    pub last: T,
    /// from byte r of block b of `arr` on, the bytes come from another array
    /// (at the same indices): (array, b, r)
    pub alt: Option<(u32, u64, T)>,
}
impl Msg {
    pub fn new(arr: u32, blocks: u64, last: T) -> Msg {
        Msg { arr, start: 0, blocks, last, alt: None }
    }
    fn byte(&self, at: u64) -> T {
        match self.alt {
            None => arr(self.arr, c64(at), 1),
            Some((d, b, r)) => {
                if at / 64 < b {
                    arr(self.arr, c64(at), 1)
                } else if at / 64 > b {
                    arr(d, c64(at), 1)
                } else {
                    ite(ult(c64(at % 64), r), arr(self.arr, c64(at), 1), arr(d, c64(at), 1))
                }
            }
        }
    }
    pub fn words(&self, b: u64) -> (Vec<T>, T) {
        let at = self.start + 64 * b;
        if b + 1 < self.blocks || cst(self.last) == Some(64) {
            return ((0..16).map(|i| cat(&(0..4).map(|j| self.byte(at + 4 * i + j)).collect::<Vec<T>>())).collect(), c(64, 32));
        }
        let mut v = vec![];
        for i in 0..16u64 {
            let bs: Vec<T> = (0..4)
                .map(|j| {
                    let k = 4 * i + j;
                    ite(ult(c64(k), self.last), self.byte(at + k), c(0, 8))
                })
                .collect();
            v.push(cat(&bs));
        }
        (v, zext(ext(self.last, 0, 8), 32))
    }
    /// Blocks `from..to` of the message (whole blocks, but for the last).
    pub fn part(&self, from: u64, to: u64) -> Msg {
        Msg { start: self.start + 64 * from, blocks: to - from, last: if to == self.blocks { self.last } else { c64(64) }, ..*self }
    }
}
pub fn chunk_node(key: &[T], mode: T, off: T, m: &Msg) -> Node {
    let mut cv = key.to_vec();
    for b in 0..m.blocks {
        let mut f = mode;
        if b == 0 {
            f = or2(f, c(oracle::CHUNK_START as u128, 32));
        }
        let (ws, bl) = m.words(b);
        if b + 1 == m.blocks {
            return Node { cv, m: ws, blen: bl, off, flags: or2(f, c(oracle::CHUNK_END as u128, 32)) };
        }
        cv = c32(&cv, &ws, bl, off, f)[..8].to_vec();
    }
    unreachable!()
}
pub fn parent_node(key: &[T], mode: T, l: &[T], r: &[T]) -> Node {
    let mut m = l.to_vec();
    m.extend(r);
    Node { cv: key.to_vec(), m, blen: c(64, 32), off: c64(0), flags: or2(mode, c(oracle::PARENT as u128, 32)) }
}
pub fn tree_node(key: &[T], mode: T, off: T, m: &Msg) -> Node {
    if m.blocks <= 32 {
        return chunk_node(key, mode, off, m);
    }
    let chunks = (m.blocks + 31) / 32;
    let l = 32 * oracle::left_chunks(chunks);
    let a = tree_node(key, mode, off, &m.part(0, l)).cv();
    let b = tree_node(key, mode, addc(off, l * 64), &m.part(l, m.blocks)).cv();
    parent_node(key, mode, &a, &b)
}
/// Key words and flags of a mode (0 hash, 1 keyed, 2 derive).
pub fn mode_key(mode: u8, key: &[T]) -> (Vec<T>, T) {
    match mode {
        0 => (oracle::IV.iter().map(|x| c(*x as u128, 32)).collect(), c(0, 32)),
        1 => (key.to_vec(), c(oracle::KEYED as u128, 32)),
        _ => (key.to_vec(), c(oracle::DERIVE as u128, 32)),
    }
}
