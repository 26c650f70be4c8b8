//! Concrete implementation of the specification, written independently of the
//! code under test. Used to evaluate terms and to judge replays.

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
pub const IV64: [u64; 8] = [
    0x6A09E667F3BCC908,
    0xBB67AE8584CAA73B,
    0x3C6EF372FE94F82B,
    0xA54FF53A5F1D36F1,
    0x510E527FADE682D1,
    0x9B05688C2B3E6C1F,
    0x1F83D9ABFB41BD6B,
    0x5BE0CD19137E2179,
];
pub const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub const G: [[usize; 4]; 8] = [
    [0, 4, 8, 12],
    [1, 5, 9, 13],
    [2, 6, 10, 14],
    [3, 7, 11, 15],
    [0, 5, 10, 15],
    [1, 6, 11, 12],
    [2, 7, 8, 13],
    [3, 4, 9, 14],
];
pub const CHUNK_START: u32 = 1;
pub const CHUNK_END: u32 = 2;
pub const PARENT: u32 = 4;
pub const ROOT: u32 = 8;
pub const KEYED: u32 = 16;
pub const DERIVE: u32 = 32;
pub const CHUNK: usize = 2048;

pub fn compress32(cv: &[u32; 8], m: &[u32; 16], blen: u32, off: u64, flags: u32) -> [u32; 16] {
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(cv);
    v[8..12].copy_from_slice(&IV[..4]);
    v[12] = off as u32;
    v[13] = (off >> 32) as u32;
    v[14] = blen;
    v[15] = flags;
    for r in 0..7 {
        for (i, g) in G.iter().enumerate() {
            let [a, b, c, d] = *g;
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[SIGMA[r][2 * i]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[SIGMA[r][2 * i + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
    }
    let mut o = [0; 16];
    for i in 0..8 {
        o[i] = v[i] ^ v[i + 8];
        o[i + 8] = v[i + 8] ^ cv[i];
    }
    o
}

pub fn compress64(cv: &[u64; 4], m: &[u64; 16], blen: u64, off: u64, flags: u64) -> [u64; 16] {
    let mut v = [0u64; 16];
    v[..4].copy_from_slice(cv);
    v[4..8].copy_from_slice(&IV64[4..8]);
    v[8..12].copy_from_slice(&IV64[..4]);
    v[12] = off;
    v[13] = IV64[5];
    v[14] = blen;
    v[15] = flags;
    for r in 0..8 {
        for (i, g) in G.iter().enumerate() {
            let [a, b, c, d] = *g;
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[SIGMA[r][2 * i]]);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[SIGMA[r][2 * i + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        }
    }
    let mut o = [0; 16];
    for i in 0..4 {
        o[i] = v[i] ^ v[i + 4];
        o[i + 4] = v[i + 4] ^ cv[i];
    }
    o[8..16].copy_from_slice(&v[8..16]);
    o
}

pub fn words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect()
}
pub fn words64(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()
}
pub fn block_words(b: &[u8]) -> [u32; 16] {
    let mut z = [0u8; 64];
    z[..b.len()].copy_from_slice(b);
    words(&z).try_into().unwrap()
}
pub fn bytes(ws: &[u32]) -> Vec<u8> {
    ws.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// A node not yet compressed: what a root needs.
#[derive(Clone)]
pub struct Node {
    pub cv: [u32; 8],
    pub m: [u32; 16],
    pub blen: u32,
    pub off: u64,
    pub flags: u32,
}
impl Node {
    pub fn cv(&self) -> [u32; 8] {
        compress32(&self.cv, &self.m, self.blen, self.off, self.flags)[..8].try_into().unwrap()
    }
}
pub fn chunk_node(key: &[u32; 8], mode: u32, off: u64, data: &[u8]) -> Node {
    let mut cv = *key;
    let nb = ((data.len() + 63) / 64).max(1);
    for b in 0..nb {
        let d = &data[b * 64..data.len().min(b * 64 + 64)];
        let mut f = mode;
        if b == 0 {
            f |= CHUNK_START;
        }
        if b + 1 == nb {
            f |= CHUNK_END;
        }
        let n = Node { cv, m: block_words(d), blen: d.len() as u32, off, flags: f };
        if b + 1 == nb {
            return n;
        }
        cv = n.cv();
    }
    unreachable!()
}
pub fn parent_node(key: &[u32; 8], mode: u32, l: &[u32; 8], r: &[u32; 8]) -> Node {
    let mut m = [0; 16];
    m[..8].copy_from_slice(l);
    m[8..].copy_from_slice(r);
    Node { cv: *key, m, blen: 64, off: 0, flags: mode | PARENT }
}
pub fn left_chunks(n: u64) -> u64 {
    // largest power of two below n
    let mut p = 1;
    while p * 2 < n {
        p *= 2;
    }
    p
}
pub fn tree_node(key: &[u32; 8], mode: u32, off: u64, data: &[u8]) -> Node {
    if data.len() <= CHUNK {
        return chunk_node(key, mode, off, data);
    }
    let c = ((data.len() + CHUNK - 1) / CHUNK) as u64;
    let l = left_chunks(c) as usize * CHUNK;
    let a = tree_node(key, mode, off, &data[..l]).cv();
    let b = tree_node(key, mode, off + l as u64, &data[l..]).cv();
    parent_node(key, mode, &a, &b)
}
/// Extended output: `len` bytes from position `start` (a multiple of 64).
pub fn root_output(n: &Node, start: u64, len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut pos = start;
    while out.len() < len {
        out.extend(bytes(&compress32(&n.cv, &n.m, n.blen, pos, n.flags | ROOT)));
        pos = pos.wrapping_add(64);
    }
    out.truncate(len);
    out
}
/// mode: 0 hash, 1 keyed, 2 derive
pub fn mode_key(mode: u8, key: &[u8; 32]) -> ([u32; 8], u32) {
    match mode {
        0 => (IV, 0),
        1 => (words(key).try_into().unwrap(), KEYED),
        _ => (words(key).try_into().unwrap(), DERIVE),
    }
}
pub fn hash(mode: u8, key: &[u8; 32], msg: &[u8], len: usize) -> Vec<u8> {
    let (k, m) = mode_key(mode, key);
    root_output(&tree_node(&k, m, 0, msg), 0, len)
}

/// Chained compression of equally long inputs (batch hashing of one input).
pub fn hash_blocks(key: &[u32; 8], input: &[u8], off: u64, flags: u32, fs: u32, fe: u32) -> [u32; 8] {
    let mut cv = *key;
    let nb = input.len() / 64;
    for b in 0..nb {
        let mut f = flags;
        if b == 0 {
            f |= fs;
        }
        if b + 1 == nb {
            f |= fe;
        }
        cv = compress32(&cv, &block_words(&input[b * 64..b * 64 + 64]), 64, off, f)[..8].try_into().unwrap();
    }
    cv
}
pub fn hash_blocks64(key: &[u64; 4], input: &[u8], off: u64, flags: u64, fs: u64, fe: u64) -> [u64; 4] {
    let mut cv = *key;
    let nb = input.len() / 128;
    for b in 0..nb {
        let mut f = flags;
        if b == 0 {
            f |= fs;
        }
        if b + 1 == nb {
            f |= fe;
        }
        let m: [u64; 16] = words64(&input[b * 128..b * 128 + 128]).try_into().unwrap();
        cv = compress64(&cv, &m, 128, off, f)[..4].try_into().unwrap();
    }
    cv
}

/// The hash of n zero bytes, on several threads.
pub fn hash_zeros(mode: u8, key: &[u8; 32], n: u64) -> Vec<u8> {
    fn cv(k: &[u32; 8], m: u32, off: u64, n: u64, z: &[u8], par: u32) -> [u32; 8] {
        if n <= 64 * CHUNK as u64 {
            return tree_node(k, m, off, &z[..n as usize]).cv();
        }
        let (a, b) = halves(k, m, off, n, z, par);
        parent_node(k, m, &a, &b).cv()
    }
    fn halves(k: &[u32; 8], m: u32, off: u64, n: u64, z: &[u8], par: u32) -> ([u32; 8], [u32; 8]) {
        let l = left_chunks((n + CHUNK as u64 - 1) / CHUNK as u64) * CHUNK as u64;
        if par == 0 {
            return (cv(k, m, off, l, z, 0), cv(k, m, off + l, n - l, z, 0));
        }
        std::thread::scope(|s| {
            let a = s.spawn(|| cv(k, m, off, l, z, par - 1));
            let b = cv(k, m, off + l, n - l, z, par - 1);
            (a.join().unwrap(), b)
        })
    }
    let z = vec![0u8; 64 * CHUNK];
    let (k, m) = mode_key(mode, key);
    if n <= CHUNK as u64 {
        return root_output(&tree_node(&k, m, 0, &z[..n as usize]), 0, 32);
    }
    let (a, b) = halves(&k, m, 0, n, &z, 5);
    root_output(&parent_node(&k, m, &a, &b), 0, 32)
}
