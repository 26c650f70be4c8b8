"""The specified hash, in plain Python (for replays)."""
IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
]
G = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
M = 0xFFFFFFFF


def compress(cv, m, blen, off, flags):
    v = list(cv) + IV[:4] + [off & M, off >> 32 & M, blen, flags]
    r = lambda x, n: (x >> n | x << (32 - n)) & M
    for s in SIGMA:
        for i, (a, b, c, d) in enumerate(G):
            for x, p, q in ((m[s[2 * i]], 16, 12), (m[s[2 * i + 1]], 8, 7)):
                v[a] = v[a] + v[b] + x & M
                v[d] = r(v[d] ^ v[a], p)
                v[c] = v[c] + v[d] & M
                v[b] = r(v[b] ^ v[c], q)
    return [v[i] ^ v[i + 8] for i in range(8)] + [v[i + 8] ^ cv[i] for i in range(8)]


def words(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def unwords(ws):
    return b"".join(x.to_bytes(4, "little") for x in ws)


def chunk(msg, key, off, fl):
    cv = list(key)
    f = fl | 1
    while len(msg) > 64:
        cv = compress(cv, words(msg[:64]), 64, off, f)[:8]
        msg, f = msg[64:], fl
    return cv, words(msg + bytes(64 - len(msg))), len(msg), off, f | 2


def cv(n):
    return unwords(compress(*n)[:8])


def parent(l, r, key, fl):
    return list(key), words(l + r), 64, 0, fl | 4


def tree(msg, key, off, fl):
    if len(msg) <= 2048:
        return chunk(msg, key, off, fl)
    k = 2048
    while len(msg) > 2 * k:
        k *= 2
    return parent(cv(tree(msg[:k], key, off, fl)), cv(tree(msg[k:], key, off + k, fl)), key, fl)


def root(n, out):
    r = b""
    for i in range((out + 63) // 64):
        r += unwords(compress(n[0], n[1], n[2], 64 * i, n[4] | 8))
    return r[:out]
