"""Hash-consed bit-vector terms in a normal form, and their meaning for z3."""
import z3

TAB = {}
NODES = []


def reset():
    TAB.clear()
    NODES.clear()
    SIMPLE.clear()
    EXT.clear()


def mk(t):
    i = TAB.get(t)
    if i is None:
        i = len(NODES)
        TAB[t] = i
        NODES.append(t)
    return i


# A node is a tuple (kind, width, ...); terms are indices of nodes.
def w(x):
    return NODES[x][1]


def const(v, n):
    return mk(("c", n, v & ((1 << n) - 1)))


def var(name, n):
    return mk(("v", n, name))


def cst(x):
    t = NODES[x]
    return t[2] if t[0] == "c" else None


def segs(x):
    """Bits of x, lowest first, as (node, low bit, length)."""
    t = NODES[x]
    return t[2] if t[0] == "cat" else ((x, 0, t[1]),)


def cat(ss):
    out = []
    for (x, lo, n) in ss:
        if n == 0:
            continue
        t = NODES[x]
        if t[0] == "c":
            x, lo = const(t[2] >> lo, n), 0
        if out:
            (y, l2, n2) = out[-1]
            a, b = cst(y), cst(x)
            if a is not None and b is not None:
                out[-1] = (const(a | b << n2, n2 + n), 0, n2 + n)
                continue
            if y == x and l2 + n2 == lo:
                out[-1] = (x, l2, n2 + n)
                continue
        out.append((x, lo, n))
    if len(out) == 1:
        (x, lo, n) = out[0]
        if lo == 0 and w(x) == n:
            return x
        t = NODES[x]
        if t[0] == "+" and lo == 0:
            return add([ext(y, 0, n) if k == 1 else scale(ext(y, 0, n), k) for (y, k) in t[3]] + [const(t[2], n)], n)
    return mk(("cat", sum(s[2] for s in out), tuple(out)))


def scale(x, k):
    return add([x], w(x), k)


EXT = {}


def ext(x, lo, n):
    if lo == 0 and n == w(x):
        return x
    k = (x, lo, n)
    r = EXT.get(k)
    if r is None:
        r = EXT[k] = ext_(x, lo, n)
    return r


def ext_(x, lo, n):
    t = NODES[x]
    if t[0] == "+" and lo == 0:
        return add([(ext(y, 0, n), k) for (y, k) in t[3]] + [const(t[2], n)], n)
    if t[0] == "ite":
        return ite(t[2], ext(t[3], lo, n), ext(t[4], lo, n))
    if t[0] == "sel":
        return plain(t[2], ext(t[3], lo, n), ext(t[4], lo, n))
    r = []
    at = 0
    for (y, l, m) in segs(x):
        a, b = max(lo, at), min(lo + n, at + m)
        if a < b:
            r.append((y, l + a - at, b - a))
        at += m
    if NODES[x][0] == "cat" and len(r) == 1 and (r[0][1], r[0][2]) != (0, w(r[0][0])):
        return ext1(*r[0])
    return cat(r)


def ext1(x, lo, n):
    t = NODES[x]
    if t[0] == "+" and lo == 0:
        return ext(x, lo, n)
    return cat([(x, lo, n)])


def zext(x, n):
    m = w(x)
    assert n >= m
    return x if n == m else cat(list(segs(x)) + [(const(0, n - m), 0, n - m)])


def add(xs, n, mul=1):
    k = 0
    m = {}
    mask = (1 << n) - 1
    todo = [(x if isinstance(x, tuple) else (x, 1)) for x in xs]
    todo = [(x, c * mul) for (x, c) in todo]
    while todo:
        (x, c) = todo.pop()
        t = NODES[x]
        assert t[1] == n
        if t[0] == "c":
            k += t[2] * c
        elif t[0] == "+":
            k += t[2] * c
            todo.extend((y, d * c) for (y, d) in t[3])
        else:
            m[x] = m.get(x, 0) + c
    k &= mask
    l = tuple(sorted((x, c & mask) for (x, c) in m.items() if c & mask))
    if not l:
        return const(k, n)
    if k == 0 and len(l) == 1 and l[0][1] == 1:
        return l[0][0]
    return mk(("+", n, k, l))


def bits(kind, x, y):
    n = w(x)
    assert w(y) == n
    # split at constants, so that masks and disjoint fields disappear
    a, b = list(segs(x)), list(segs(y))
    if len(a) > 1 or len(b) > 1:
        if any(cst(s[0]) is not None for s in a + b):
            cuts = set()
            for ss in (a, b):
                at = 0
                for s in ss:
                    if cst(s[0]) is not None:
                        cuts.add(at)
                        cuts.add(at + s[2])
                    at += s[2]
            cuts |= {0, n}
            cuts = sorted(cuts)
            r = []
            for p, q in zip(cuts, cuts[1:]):
                z = bits1(kind, ext(x, p, q - p), ext(y, p, q - p))
                r.extend(segs(z))
            return cat(r)
    return bits1(kind, x, y)


def disjoint(x, y):
    """x | y where one is zero wherever the other is not, else None."""
    def used(z):
        at = r = 0
        for (v, l, n) in segs(z):
            c = cst(v)
            r |= (c if c is not None else (1 << n) - 1) << at
            at += n
        return r
    if cst(x) is not None or cst(y) is not None or used(x) & used(y):
        return None
    return bits("|", x, y)


def bits1(kind, x, y):
    n = w(x)
    mask = (1 << n) - 1
    k = {"^": 0, "|": 0, "&": mask}[kind]
    m = {}
    for z in (x, y):
        t = NODES[z]
        if t[0] == "c":
            c, l = t[2], ()
        elif t[0] == kind:
            c, l = t[2], t[3]
        else:
            c, l = k if kind != "^" else 0, (z,)
            if kind == "&":
                c = mask
            if kind == "|":
                c = 0
        k = k ^ c if kind == "^" else k | c if kind == "|" else k & c
        for v in l:
            m[v] = m.get(v, 0) + 1
    l = tuple(sorted(v for v, c in m.items() if kind != "^" or c & 1))
    if kind == "|" and k == mask or kind == "&" and k == 0 or not l:
        return const(k, n)
    if len(l) == 1 and k == (mask if kind == "&" else 0):
        return l[0]
    if kind == "&" and k != mask or kind == "|" and k != 0:
        # constant bits
        v = l[0] if len(l) == 1 else mk((kind, n, mask if kind == "&" else 0, l))
        r, at = [], 0
        while at < n:
            e = at
            bit = k >> at & 1
            while e < n and (k >> e & 1) == bit:
                e += 1
            keep = (kind == "&") == bool(bit)
            r.extend(segs(ext(v, at, e - at)) if keep else [(const(0 if kind == "&" else mask, e - at), 0, e - at)])
            at = e
        return cat(r)
    return mk((kind, n, k, l))


def ite(c, x, y):
    """c: (k,) for 'the length is more than k'"""
    return x if x == y else mk(("ite", w(x), c, x, y))


def span(x):
    """Least and greatest value, from the bits that are known."""
    lo = hi = at = 0
    for (y, l, n) in segs(x):
        c = cst(y)
        lo |= (c if c is not None else 0) << at
        hi |= (c if c is not None else (1 << n) - 1) << at
        at += n
    return lo, hi


def lt(x, y):
    """1 where x < y, unsigned"""
    assert w(x) == w(y)
    a, b, c, d = *span(x), *span(y)
    if b < c:
        return const(1, 1)
    if a >= d or x == y:
        return const(0, 1)
    return mk(("lt", 1, x, y))


def eq(x, y):
    assert w(x) == w(y)
    if x == y:
        return const(1, 1)
    d = cst(add([x, (y, -1)], w(x)))
    if d is not None:
        return const(d == 0, 1)
    a, b, c, d = *span(x), *span(y)
    if b < c or d < a:
        return const(0, 1)
    return mk(("eq", 1, min(x, y), max(x, y)))


def inv(c):
    return bits("^", c, const(1, 1))


ATOMS = []
SIMPLE = {}
STAT = {"queries": 0}


def plain(c, x, y):
    if cst(c) is not None:
        return x if cst(c) else y
    return x if x == y else mk(("sel", w(x), c, x, y))


def sel(c, x, y):
    """x where the bit c is set, else y; in a shorter form where z3 shows
    that the choice makes no difference to it"""
    r = plain(c, x, y)
    if NODES[r][0] != "sel":
        return r
    n = w(r)
    pre = {}
    top, todo = {r}, [r]
    while todo:
        z = NODES[todo.pop()]
        for v in z[3:5] if z[0] == "sel" else ():
            if NODES[v][0] == "sel" and v not in top:
                top.add(v)
                todo.append(v)
    for z in reach([r], lambda z: not inner(z, top)):
        if not inner(z, top):
            k = len(pre)
            while len(ATOMS) <= k:
                ATOMS.append("@%d" % len(ATOMS))
            pre[z] = var(ATOMS[k], w(z))
    q = rebuild([c, x, y], None, None, pre=pre)
    key = tuple(q)
    if key not in SIMPLE:
        SIMPLE[key] = shorter(*q, n)
    k = SIMPLE[key]
    if k is None:
        return r
    z = r if k[0] == 2 else (x, y)[k[0]]
    return zext(ext(z, 0, k[1]), n)


def inner(z, top):
    t = NODES[z]
    return t[0] in ("c", "cat", "lt", "eq") or t[0] == "sel" and z in top or t[0] in "^|&" and t[1] == 1 or t[0] == "+" and t[1] not in (8, 32)


def shorter(c, x, y, n):
    r = plain(c, x, y)
    zr = to_z3([r])[0]
    for which in (1, 0):
        for k in (32, n):
            if k > n:
                continue
            z = zext(ext((x, y)[which], 0, k), n)
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(zr != to_z3([z])[0])
            STAT["queries"] += 1
            if s.check() == z3.unsat:
                return which, k
    # at least without the high bits that are never set
    k = n
    while k > 1:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(z3.Extract(n - 1, k - 1, zr) != 0)
        STAT["queries"] += 1
        if s.check() != z3.unsat:
            break
        k -= 1
    return None if k == n else (2, k)


def feasible(conds):
    """May all these bits be set? Atoms are left open, so yes may be wrong."""
    pre = {}
    for z in reach(conds, lambda z: not inner(z, ())):
        if not inner(z, ()):
            pre[z] = var("@%d" % len(pre), w(z))
    q = rebuild(conds, None, None, pre=pre)
    if any(cst(c) == 0 for c in q):
        return False
    key = ("f",) + tuple(q)
    if key not in SIMPLE:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add([c == 1 for c in to_z3(q)])
        STAT["queries"] += 1
        SIMPLE[key] = s.check() != z3.unsat
    return SIMPLE[key]


def uf(args, i):
    return mk(("uf", 32, tuple(args), i))


def kids(t):
    k = t[0]
    if k in "cv" or k == "len":
        return ()
    if k == "cat":
        return [s[0] for s in t[2]]
    if k == "+":
        return [s[0] for s in t[3]]
    if k in "^|&":
        return t[3]
    if k == "ite":
        return t[3:5]
    if k in ("lt", "eq", "sel"):
        return t[2:]
    return t[2]


def reach(roots, stop=None):
    seen = set()
    todo = list(roots)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop and stop(x):
            continue
        todo.extend(kids(NODES[x]))
    return sorted(seen)


def rebuild(roots, lo, hi, expand=None, pre={}):
    """Simplify for lo <= length <= hi, or replace the terms in pre."""
    m = {}
    for x in reach(roots, pre.__contains__ if pre else None):
        t = NODES[x]
        k = t[0]
        if x in pre:
            y = pre[x]
        elif k in "cv":
            y = x
        elif k == "len":
            if lo == hi:
                y = const(t[2] * lo + t[3], t[1])
            else:
                a, b = t[2] * lo + t[3], t[2] * hi + t[3]
                q = max(1, max(a, b).bit_length())
                y = zext(ext(x, 0, q), t[1]) if min(a, b) >= 0 and q < t[1] else x
        elif k == "cat":
            r = []
            for (z, l, n) in t[2]:
                r.extend(segs(ext(m[z], l, n)))
            y = cat(r)
        elif k == "+":
            y = add([(m[z], c) for (z, c) in t[3]] + [const(t[2], t[1])], t[1])
        elif k in "^|&":
            y = const(t[2], t[1])
            for z in t[3]:
                y = bits(k, y, m[z])
        elif k == "ite":
            c = t[2][0]
            y = m[t[3]] if lo > c else m[t[4]] if hi <= c else ite(t[2], m[t[3]], m[t[4]])
        elif k == "lt":
            y = lt(m[t[2]], m[t[3]])
        elif k == "eq":
            y = eq(m[t[2]], m[t[3]])
        elif k == "sel":
            y = plain(m[t[2]], m[t[3]], m[t[4]])
        else:
            a = [m[z] for z in t[2]]
            y = expand(tuple(a))[t[3]] if expand else uf(a, t[3])
        m[x] = y
    return [m[x] for x in roots]


def evaluate(roots, env, length, f):
    m = {}
    for x in reach(roots):
        t = NODES[x]
        k = t[0]
        mask = (1 << t[1]) - 1
        if k == "c":
            v = t[2]
        elif k == "v":
            v = env(t[2], t[1])
        elif k == "len":
            v = t[2] * length + t[3]
        elif k == "cat":
            v = at = 0
            for (z, l, n) in t[2]:
                v |= (m[z] >> l & ((1 << n) - 1)) << at
                at += n
        elif k == "+":
            v = t[2] + sum(m[z] * c for (z, c) in t[3])
        elif k in "^|&":
            v = t[2]
            for z in t[3]:
                v = v ^ m[z] if k == "^" else v | m[z] if k == "|" else v & m[z]
        elif k == "ite":
            v = m[t[3]] if length > t[2][0] else m[t[4]]
        elif k == "lt":
            v = int(m[t[2]] < m[t[3]])
        elif k == "eq":
            v = int(m[t[2]] == m[t[3]])
        elif k == "sel":
            v = m[t[3]] if m[t[2]] else m[t[4]]
        else:
            v = f([m[z] for z in t[2]])[t[3]]
        m[x] = v & mask
    return [m[x] for x in roots]


LEN = z3.Int("length")


def to_z3(roots):
    """z3 terms; the length is an integer, its uses in words are converted."""
    m = {}
    fs = {}
    for x in reach(roots):
        t = NODES[x]
        k = t[0]
        n = t[1]
        if k == "c":
            v = z3.BitVecVal(t[2], n)
        elif k == "v":
            v = z3.BitVec(t[2], n)
        elif k == "len":
            v = z3.Int2BV(LEN * t[2] + t[3], n)
        elif k == "cat":
            ps = [z3.Extract(l + q - 1, l, m[z]) for (z, l, q) in t[2]]
            v = ps[0] if len(ps) == 1 else z3.Concat(*reversed(ps))
        elif k == "+":
            v = z3.BitVecVal(t[2], n)
            for (z, c) in t[3]:
                v = v + (m[z] if c == 1 else m[z] * z3.BitVecVal(c, n))
        elif k in "^|&":
            v = z3.BitVecVal(t[2], n)
            for z in t[3]:
                v = v ^ m[z] if k == "^" else v | m[z] if k == "|" else v & m[z]
        elif k == "ite":
            v = z3.If(LEN > t[2][0], m[t[3]], m[t[4]])
        elif k in ("lt", "eq"):
            v = z3.If(z3.ULT(m[t[2]], m[t[3]]) if k == "lt" else m[t[2]] == m[t[3]], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif k == "sel":
            v = z3.If(m[t[2]] == 1, m[t[3]], m[t[4]])
        else:
            a = [m[z] for z in t[2]]
            key = (t[3], tuple(q.size() for q in a))
            if key not in fs:
                fs[key] = z3.Function("C32_%d_%d" % (t[3], len(fs)), *([z3.BitVecSort(q) for q in key[1]] + [z3.BitVecSort(32)]))
            v = fs[key](*a)
        m[x] = v
    return [m[x] for x in roots]
