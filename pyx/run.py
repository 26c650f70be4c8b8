"""C18: the Python implementation, executed symbolically, against the tree
specification. usage: run.py check C18 [-v] [--thorough] [--only NAME] |
run.py replay FILE"""
import ast
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import oracle
import sym
import term as t
from sym import CX, SBytes, SInt, SWord, Unsup, norm, word, word_of

SRC = os.environ.get("PYX_SRC", "/repo/python/baokeshed.py")
VERIF = os.environ.get("VERIF_DIR", "/verif")
MAXLEN = (1 << 63) - 1


def pure_names(tree):
    """Functions of the module that only compute."""
    ok = {"min", "max", "len", "int", "bool", "abs", "divmod", "pow", "tuple"}
    fs = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef) and not f.decorator_list}
    good = set(fs)
    while True:
        bad = {n for n in good if not pure(fs[n].body, ok | good)}
        if not bad:
            return good
        good -= bad


def pure(body, ok):
    for n in [x for s in body for x in ast.walk(s)]:
        if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
            return False
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ok or isinstance(n.func, ast.Attribute) and n.func.attr in ("to_bytes", "from_bytes", "bit_length")):
            return False
    return True


class Wrap(ast.NodeTransformer):
    """Byte string literals become symbolic ones; choices between values are
    merged where the choice is made by data."""

    def __init__(self, ok):
        self.ok = ok
        self.depth = 0

    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(ast.Name("__B", ast.Load()), [n], []), n)
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_IfExp(self, n):
        good = pure([n.body, n.orelse], self.ok)
        self.generic_visit(n)
        if not good:
            return n
        f = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return ast.copy_location(ast.Call(ast.Name("__choose", ast.Load()), [n.test, f(n.body), f(n.orelse)], []), n)

    def names(self, body):
        r = []
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.If):
                k = self.names(s.body)
                e = self.names(s.orelse)
                if k is None or e is None or not pure([s.test], self.ok):
                    return None
                r += k + e
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                x = s.targets[0]
            elif isinstance(s, ast.AugAssign):
                x = s.target
            else:
                return None
            if not isinstance(x, ast.Name) or not pure([s.value], self.ok):
                return None
            r.append(x.id)
        return sorted(set(r))

    def visit_If(self, n):
        v = self.names([n]) if self.depth else None
        self.generic_visit(n)
        if not v:
            return n
        n.test, test = ast.Name("__c", ast.Load()), n.test
        args = ", ".join(v)
        src = "__c = 0\nif __isb(__c):\n    def __t(%s):\n        return (%s,)\n    def __e(%s):\n        return (%s,)\n    __l = locals()\n    (%s,) = __pick(__c, __t, __e, [__l.get(n) for n in %r])\nelse:\n    pass" % (args, args, args, args, args, v)
        m = ast.parse(src).body
        import copy
        m[0].value = test
        m[1].body[0].body[:0] = copy.deepcopy(n.body)
        m[1].body[1].body[:0] = copy.deepcopy(n.orelse)
        m[1].orelse = [n]
        return [ast.copy_location(x, n) for x in m]


def pick(c, f, g, a):
    return sym.choose(c, lambda: f(*a), lambda: g(*a))


CODE = None


def load():
    global CODE
    if CODE is None:
        tree = ast.parse(open(SRC).read())
        good = pure_names(tree)
        ok = good | {"min", "max", "len", "int", "bool", "abs"}
        tree = ast.fix_missing_locations(Wrap(ok).visit(tree))
        CODE = compile(tree, SRC, "exec"), good
    ns = {"__builtins__": sym.space(), "__name__": "baokeshed", "__B": SBytes, "__choose": sym.choose, "__pick": pick,
          "__isb": lambda c: isinstance(c, sym.SBool)}
    exec(CODE[0], ns)
    for n in CODE[1]:
        if callable(ns.get(n)):
            ns[n] = sym.calls(ns[n])
    return ns


# ------------------------------------------------------------ specification

IV = [t.const(0, 32)] * 8


class Spec:
    def __init__(self, summary):
        self.expand = not summary
        self.cache = {}

    def compress(self, cv, m, blen, off, flags):
        a = list(cv) + list(m) + [blen, off, flags]
        if not self.expand:
            return [t.uf(a, i) for i in range(16)]
        k = tuple(a)
        if k not in self.cache:
            self.cache[k] = expand(k)
        return self.cache[k]


def rotr(x, n):
    return t.cat([(s) for s in t.segs(t.ext(x, n, 32 - n))] + list(t.segs(t.ext(x, 0, n))))


def expand(a):
    cv, m, blen, off, flags = a[:8], a[8:24], a[24], a[25], a[26]
    v = list(cv) + [t.const(x, 32) for x in oracle.IV[:4]] + [t.ext(off, 0, 32), t.ext(off, 32, 32), blen, flags]
    for r in range(7):
        for i, (A, B, C, D) in enumerate(oracle.G):
            x, y = m[oracle.SIGMA[r][2 * i]], m[oracle.SIGMA[r][2 * i + 1]]
            v[A] = t.add([v[A], v[B], x], 32)
            v[D] = rotr(t.bits("^", v[D], v[A]), 16)
            v[C] = t.add([v[C], v[D]], 32)
            v[B] = rotr(t.bits("^", v[B], v[C]), 12)
            v[A] = t.add([v[A], v[B], y], 32)
            v[D] = rotr(t.bits("^", v[D], v[A]), 8)
            v[C] = t.add([v[C], v[D]], 32)
            v[B] = rotr(t.bits("^", v[B], v[C]), 7)
    return [t.bits("^", v[i], v[i + 8]) for i in range(8)] + [t.bits("^", v[i + 8], cv[i]) for i in range(8)]


class Node:
    def __init__(self, sp, cv, m, blen, off, flags):
        self.sp, self.cvw, self.m, self.blen, self.off, self.flags = sp, cv, m, blen, off, flags

    def cv(self):
        return self.sp.compress(self.cvw, self.m, self.blen, self.off, self.flags)[:8]

    def out(self, n):
        r = []
        fl = t.bits("|", self.flags, t.const(8, 32))
        for i in range((n + 63) // 64):
            r += self.sp.compress(self.cvw, self.m, self.blen, t.const(64 * i, 64), fl)
        return [t.ext(r[i // 4], 8 * (i % 4), 8) for i in range(n)]


def w64(x):
    return t.ext(t.zext(word_of(x).n, max(64, t.w(word_of(x).n))), 0, 64)


def chunk(sp, at, n, key, off, fl):
    """The chunk of message bytes at.. of length n (an int or a length)."""
    b = 0
    cv = key
    while True:
        last = norm(n - 64 * b) <= 64
        f = fl
        if b == 0:
            f = t.bits("|", f, t.const(1, 32))
        r = norm(n - 64 * b)
        m = []
        for i in range(16):
            ss = []
            for j in range(4):
                p = 4 * i + j
                v = t.var("m%d" % (at + 64 * b + p), 8)
                ss.extend(t.segs(sym.sel(sym.below(p, r), v, t.const(0, 8)) if last else v))
            m.append(t.cat(ss))
        if last:
            bl = word_of(r).n
            bl = t.ext(bl, 0, 32) if t.w(bl) > 32 else t.zext(bl, 32)
            return Node(sp, cv, m, bl, off, t.bits("|", f, t.const(2, 32)))
        cv = sp.compress(cv, m, t.const(64, 32), off, f)[:8]
        b += 1


def tree(sp, at, n, key, off, fl):
    if norm(n) <= 2048:
        return chunk(sp, at, n, key, off, fl)
    k = 2048
    while norm(n) > 2 * k:
        k *= 2
    l = tree(sp, at, k, key, off, fl).cv()
    r = tree(sp, at + k, norm(n - k), key, t.add([off, t.const(k, 64)], 64), fl).cv()
    return Node(sp, key, l + r, t.const(64, 32), t.const(0, 64), t.bits("|", fl, t.const(4, 32)))


def key_words():
    r = []
    for i in range(8):
        r.append(t.cat([s for j in range(4) for s in t.segs(t.var("k%d" % (4 * i + j), 8))]))
    return r


# ------------------------------------------------------------ driving

class Real(Exception):
    pass


def summary(real):
    def compress(cv, block, block_len, offset, flags):
        def wd(x, n):
            x = word_of(x).n
            if t.w(x) > n:
                if t.cst(t.ext(x, n, t.w(x) - n)) != 0:
                    raise Real()
                return t.ext(x, 0, n)
            return t.zext(x, n)
        try:
            if len(cv) != 8 or not isinstance(block, SBytes) or not block.size() == 64:
                raise Real()
            a = [wd(x, 32) for x in cv]
            b = block.nodes()
            for i in range(16):
                a.append(t.cat([s for j in range(4) for s in t.segs(b[4 * i + j])]))
            a += [t.zext(wd(block_len, 7), 32) if not isinstance(block_len, SInt) else wd32(block_len), wd(offset, 64), t.zext(wd(flags, 8), 32)]
        except (Real, TypeError):
            return real(cv, block, block_len, offset, flags)
        return [word(t.uf(a, i)) for i in range(16)]
    return compress


def wd32(x):
    x = norm(x)
    if isinstance(x, SInt):
        lo, hi = x.rng()
        if lo < 0 or hi > 64:
            raise Real()
    n = word_of(x).n
    return t.ext(n, 0, 32) if t.w(n) > 32 else t.zext(n, 32)


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang("does not end")


def paths(lo, hi, f, res, limit=100000):
    """Run f once for each path; yields (context, result or exception)."""
    todo = [[]]
    while todo:
        cx = sym.Ctx(lo, hi, todo.pop())
        sym.set_ctx(cx)
        signal.alarm(60)
        try:
            r = f()
        except Unsup:
            signal.alarm(0)
            raise
        except Exception as e:
            signal.alarm(0)
            if lo != hi and isinstance(e, (TypeError, AttributeError, NotImplementedError)):
                raise Unsup(repr(e))
            r = e
        signal.alarm(0)
        res["paths"] += 1
        if res["paths"] > limit:
            raise Unsup("paths")
        todo.extend(cx.left)
        yield cx, r


def evalf(args):
    return oracle.compress([args[i] for i in range(8)], args[8:24], args[24], args[25], args[26])


def model(cx, got, want, names, res, seed):
    """An assignment for which got and want differ: (length, {name: value}),
    None if there is none, or 'unknown'."""
    bad = [(a, b) for a, b in zip(got, want) if a != b]
    if not bad:
        res["by_form"] += 1
        return None
    g = random.Random(seed)
    fs = [x for p in bad for x in p]

    def differs(n, h, k):
        env = lambda nm, w: h.setdefault(nm, 0 if k == 0 else g.getrandbits(w))
        v = t.evaluate(fs + cx.conds, env, n, evalf)
        return any(v[2 * i] != v[2 * i + 1] for i in range(len(bad))) and all(v[len(fs):])

    for k in range(6):
        n = [cx.lo, cx.hi, g.randint(cx.lo, cx.hi)][k % 3]
        h = {}
        if differs(n, h, k):
            return n, h
    # where the code chooses by data: one input for each side of a choice
    # that matters, the first of them first
    cs = [t.NODES[x] for x in t.reach(fs) if t.NODES[x][0] == "sel"][:12]
    todo = [[]] if cx.conds else []
    for c in cs:
        low = lambda z: t.zext(t.ext(z, 0, min(32, t.w(z))), t.w(z))
        todo += [[t.inv(t.eq(t.mk(c), q))] for q in (low(c[3]), low(c[4]))]
        todo += [[c[2]], [t.inv(c[2])]]
    stop = time.time() + 60
    for q in todo:
        if time.time() > stop:
            break
        m = solve(cx, q, res, 3000, [])
        for k in range(2 if m else 0):
            h = dict(m[1])
            if differs(m[0], h, k):
                return m[0], h
    zs = t.to_z3(fs)
    s = z3.Solver()
    s.set("timeout", 120000)
    s.add(t.LEN >= cx.lo, t.LEN <= cx.hi, z3.Or([zs[2 * i] != zs[2 * i + 1] for i in range(len(bad))]))
    s.add([c == 1 for c in t.to_z3(cx.conds)])
    t0 = time.time()
    r = s.check()
    res["queries"] += 1
    res["time"] += time.time() - t0
    if r == z3.unsat:
        res["by_solver"] += 1
        return None
    if r == z3.sat:
        return values(s.model())
    return "unknown"


def reachable(cx, res, seed):
    """An input that takes this path; False if there is none."""
    if not cx.conds:
        return cx.lo, {}
    g = random.Random(seed)
    todo = [[]]
    for c in [t.NODES[x] for x in t.reach(cx.conds) if t.NODES[x][0] == "sel"][:12]:
        todo += [[c[2]], [t.inv(c[2])]]
    stop = time.time() + 20
    for q in todo:
        m = solve(cx, q, res, 3000, []) if q else (g.randint(cx.lo, cx.hi), {})
        for k in range(4 if m else 0):
            h = dict(m[1])
            env = lambda nm, w: h.setdefault(nm, 0 if k == 0 else g.getrandbits(w))
            if all(t.evaluate(cx.conds, env, m[0], evalf)):
                return m[0], h
        if time.time() > stop:
            break
    return solve(cx, [], res, 20000)


def values(m):
    n = m.eval(t.LEN, True).as_long()
    return n, {d.name(): m[d].as_long() for d in m.decls() if d.arity() == 0 and d.name() != "length"}


def solve(cx, bits, res, limit, conds=None):
    """A length and values on this path for which these bits are set; False
    if there are none, None if z3 does not tell."""
    if any(t.cst(b) == 0 for b in bits):
        return False
    s = z3.Solver()
    s.set("timeout", limit)
    s.add(t.LEN >= cx.lo, t.LEN <= cx.hi)
    s.add([c == 1 for c in t.to_z3(bits + (cx.conds if conds is None else conds))])
    t0 = time.time()
    r = s.check()
    res["queries"] += 1
    res["time"] += time.time() - t0
    return values(s.model()) if r == z3.sat else False if r == z3.unsat else None


def certify(res, n):
    """The rewriting behind each kind of operation, checked by the solver."""
    for (op, a, b, r) in sym.CERT[:n]:
        if len(t.reach([a, b, r])) > 60:
            continue
        za, zb, zr = t.to_z3([a, b, r])
        w = zr.size()

        def fit(x):
            return z3.ZeroExt(w - x.size(), x) if x.size() < w else z3.Extract(w - 1, 0, x)
        x, y = fit(za), fit(zb)
        q = {"+": x + y, "^": x ^ y, "|": x | y, "&": x & y}[op]
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(q != zr)
        res["queries"] += 1
        c = s.check()
        if c == z3.sat:
            raise Exception("wrong rewriting of " + op)
        if c == z3.unsat:
            res["rules"] += 1


def covered(parts, lo, hi, res):
    """Do the paths cover every length?"""
    s = z3.Solver()
    s.add(t.LEN >= lo, t.LEN <= hi)
    for (a, b) in parts:
        s.add(z3.Not(z3.And(t.LEN >= a, t.LEN <= b)))
    res["queries"] += 1
    return s.check() == z3.unsat


def bytes_env(h, pre, n):
    return bytes(h.get("%s%d" % (pre, i), 0) & 255 for i in range(n))


# ---- the kinds of jobs

def job_contract(ns, j, res):
    """compress() for every input."""
    sp = Spec(False)
    f = ns["compress"]

    def go():
        cv = [SWord(t.var("cv%d" % i, 32)) for i in range(8)]
        keep = list(cv)
        block = SBytes.of([t.var("b%d" % i, 8) for i in range(64)])
        bl, off, fl = SWord(t.var("block_len", 7)), SWord(t.var("offset", 64)), SWord(t.var("flags", 8))
        r = f(cv, block, bl, off, fl)
        same = all(x is y for x, y in zip(cv, keep)) and block.nodes() == [t.var("b%d" % i, 8) for i in range(64)]
        return same, list(r)

    for cx, r in paths(0, 0, go, res):
        res["obligations"] += 1
        if isinstance(r, Exception) or not r[0] or len(r[1]) != 16:
            return False
        got = []
        for x in r[1]:
            n = word_of(x).n
            if t.w(n) > 32:
                return False
            got.append(t.zext(n, 32))
        m = []
        for i in range(16):
            m.append(t.cat([(t.var("b%d" % (4 * i + k), 8), 0, 8) for k in range(4)]))
        want = sp.compress([t.var("cv%d" % i, 32) for i in range(8)], m, t.zext(t.var("block_len", 7), 32), t.var("offset", 64), t.zext(t.var("flags", 8), 32))
        if model(cx, got, want, None, res, 1) is not None:
            return False
        res["discharged"] += 1
    certify(res, 60)
    return True


MODES = [("hash", 0), ("keyed_hash", 16), ("derive_key", 32)]


def job_api(ns, j, res):
    sp = Spec(j["summary"])
    mode, out, lo, hi = j["mode"], j["out"], j["lo"], j["hi"]
    name, fl = MODES[mode]
    parts = []
    nodes = {}

    def go():
        L = sym.sint(1, 0) if lo != hi else lo
        msg = SBytes.raw(sym.View(0), L)
        key = SBytes.of([t.var("k%d" % i, 8) for i in range(32)])
        f = ns[name]
        r = f(msg, out) if mode == 0 else f(key, msg, out)
        if not isinstance(r, SBytes) or r.size() != out:
            return "length"
        got = r.nodes()
        kw = [t.const(x, 32) for x in oracle.IV] if mode == 0 else key_words()
        node = tree(sp, 0, L, kw, t.const(0, 64), t.const(fl, 32))
        return got, node.out(out)

    for cx, r in paths(lo, hi, go, res):
        res["obligations"] += 1
        parts.append((cx.lo, cx.hi))
        if isinstance(r, Exception) or r == "length":
            at = reachable(cx, res, j["seed"])
            if at is False:
                res["discharged"] += 1
                continue
            if at is None:
                res["errors"].append("solver gave no answer")
                continue
            n, h = at
            res["cex"].append(api_cex(j, n, h, "raises " + repr(r) if r != "length" else "wrong length"))
            return
        got, want = r
        both = t.rebuild(got + want, cx.lo, cx.hi)
        m = model(cx, both[:out], both[out:], None, res, j["seed"])
        if m is None:
            res["discharged"] += 1
        elif m == "unknown":
            res["errors"].append("solver gave no answer")
        else:
            res["cex"].append(api_cex(j, m[0], m[1], "output differs"))
            return
    res["obligations"] += 1
    if covered(parts, lo, hi, res):
        res["discharged"] += 1
    else:
        res["errors"].append("paths do not cover the lengths")


def api_cex(j, n, h, what):
    key, msg = bytes_env(h, "k", 32), bytes_env(h, "m", n)
    return {"what": what, "kind": "api", "mode": j["mode"], "out": j["out"], "key": key.hex(), "msg": msg.hex()}


class Out:
    """What a recursive call returned."""

    def __init__(self, sp, at, n, off):
        self.a = (at, n, off)

    def chaining_value(self):
        at, n, off = self.a
        return SBytes.of(child(at, n, off))


CHILD = {}


def lin(n):
    n = norm(n)
    return (0, n, 1) if isinstance(n, int) else (n.a, n.b, n.d)


def child(at, n, off):
    """32 unknown bytes, the same for the same part of the message."""
    k = (at, lin(n), off)
    i = CHILD.setdefault(k, len(CHILD))
    return [t.var("h%d_%d" % (i, b), 8) for b in range(32)]


def job_rec(ns, j, res):
    """hash_recurse() at any offset: the step for more than one chunk with
    the recursive calls replaced by unknowns, or the chunk itself."""
    sp = Spec(j["summary"])
    f = ns["hash_recurse"]
    lo, hi, out = j["lo"], j["hi"], j["out"]
    step = j["step"]
    calls = []

    def stub(inp, key, off, fl):
        if not isinstance(inp, SBytes) or not isinstance(inp.src, sym.View) or key is not KEY[0] or not same_flags(fl):
            raise Unsup("recursive call")
        calls.append(1)
        return Out(sp, inp.src.at, inp.size(), word_of(off).n)

    def same_flags(x):
        return isinstance(x, SWord) and x.n == FL

    FL = t.cat([(t.const(0, 4), 0, 4), (t.var("mode", 2), 0, 2), (t.const(0, 2), 0, 2)])
    KEY = [None]
    parts = []

    def go():
        ns["hash_recurse"] = stub if step else f
        CHILD.clear()
        calls.clear()
        L = sym.sint(1, 0)
        KEY[0] = [word(x) for x in key_words()]
        off = SWord(t.var("off", 60))
        o = f(SBytes.raw(sym.View(0), L), KEY[0], off, SWord(FL))
        got = o.root_output_bytes(out).nodes() + o.chaining_value().nodes()
        kw, fl = key_words(), t.zext(FL, 32)
        off64 = t.zext(t.var("off", 60), 64)
        if step:
            k = 2048
            while norm(L) > 2 * k:
                k *= 2
            l = child(0, k, t.var("off", 60))
            r = child(k, norm(L - k), word_of(SWord(t.var("off", 60)) + k).n)
            m = []
            for h in (l, r):
                for i in range(8):
                    m.append(t.cat([s for b in range(4) for s in t.segs(h[4 * i + b])]))
            node = Node(sp, kw, m, t.const(64, 32), t.const(0, 64), t.bits("|", fl, t.const(4, 32)))
        else:
            node = chunk(sp, 0, L, kw, off64, fl)
        cv = node.cv()
        want = node.out(out) + [t.ext(cv[i // 4], 8 * (i % 4), 8) for i in range(32)]
        return got, want

    for cx, r in paths(lo, hi, go, res):
        res["obligations"] += 1
        parts.append((cx.lo, cx.hi))
        if isinstance(r, Exception):
            at = reachable(cx, res, j["seed"])
            if at is False:
                res["discharged"] += 1
                continue
            if at is None:
                res["errors"].append("solver gave no answer")
                continue
            res["cex"].append(rec_cex(j, at[0], at[1], "raises " + repr(r)))
            return
        got, want = r
        both = t.rebuild(got + want, cx.lo, cx.hi)
        m = model(cx, both[:len(got)], both[len(got):], None, res, j["seed"])
        if m is None:
            res["discharged"] += 1
        elif m == "unknown":
            res["errors"].append("solver gave no answer")
        else:
            res["cex"].append(rec_cex(j, m[0], m[1], "result differs"))
            return
    res["obligations"] += 1
    if covered(parts, lo, hi, res):
        res["discharged"] += 1
    else:
        res["errors"].append("paths do not cover the lengths")


def rec_cex(j, n, h, what):
    return {"what": what, "kind": "step" if j["step"] else "chunk", "len": n, "out": j["out"], "key": bytes_env(h, "k", 32).hex(),
            "off": h.get("off", 0), "mode": (h.get("mode", 0) & 3) * 16, "msg": bytes_env(h, "m", n).hex() if not j["step"] else ""}


KINDS = {"api": job_api, "rec": job_rec}


def one(j):
    """Run a job in a worker process."""
    t.reset()
    sym.CERT.clear()
    sys.setrecursionlimit(6000)
    signal.signal(signal.SIGALRM, alarm)
    res = {"name": j["name"], "paths": 0, "queries": 0, "time": 0.0, "by_form": 0, "by_solver": 0, "rules": 0,
           "obligations": 0, "discharged": 0, "cex": [], "errors": [], "unsup": None, "ok": None, "notes": []}
    t0 = time.time()
    try:
        ns = load()
        if j["kind"] == "contract":
            try:
                res["ok"] = job_contract(ns, j, res)
            except Exception as e:
                res["ok"] = False
                res["notes"].append("compress: " + repr(e))
            if not res["ok"]:
                res["obligations"] = res["discharged"]
        else:
            if j["summary"]:
                ns["compress"] = summary(ns["compress"])
            try:
                KINDS[j["kind"]](ns, j, res)
                certify(res, 12)
            except Unsup as e:
                res["unsup"] = str(e)
    except Exception:
        res["errors"].append(traceback.format_exc()[-600:])
    res["wall"] = time.time() - t0
    return res


def job_list(thorough, summ, exact, seed, ns):
    v = []

    def add(kind, name, **k):
        v.append(dict(kind=kind, name=name, summary=summ, seed=seed, **k))

    top = 33 if thorough else 17
    g = random.Random(seed)
    if not summ and not exact:
        # every compression in full: fewer and shorter
        for n, (lo, hi) in enumerate([(0, 64), (65, 192), (1985, 2048), (2049, 2112), (4097, 4160), (6145, 6160)]):
            add("api", "%s lengths %d..%d" % (MODES[n % 3][0], lo, hi), mode=n % 3, out=[32, 65, 100][n // 3], lo=lo, hi=hi)
    elif not exact:
        outs = [32, 1, 303, 64, 65, 100]
        for k in range(0, top):
            lo, hi = (0 if k == 0 else 2048 * k + 1), 2048 * (k + 1)
            modes = range(3) if k < 3 or thorough else [k % 3]
            for mode in modes:
                # each chunk in pieces, so that the pieces run side by side
                cut = list(range(lo, hi + 1, 512 if k > 3 else 1024))
                ends = [c - 1 for c in cut[1:]] + [hi]
                for a, b in zip(cut, ends):
                    o = outs[(k + mode) % len(outs)] if a != lo else 32
                    add("api", "%s lengths %d..%d out %d" % (MODES[mode][0], a, b, o), mode=mode, out=o, lo=a, hi=b)
    else:
        for n in [0, 1, 63, 64, 65, 100, 127, 128, 129, 1024, 1984, 1985, 2047, 2048, 2049, 4095, 4096, 4097, 6145] + ([8192, 8193, 10241, 12289, 14337, 16385, 20481, 34817] if summ else []):
            add("api", "%s length %d" % (MODES[n % 3][0], n), mode=n % 3, out=[32, 65, 303][n % 3], lo=n, hi=n)
    for o in list(range(0, (400 if thorough else 200) if summ else 70)) + [255, 256, 257, 511, 512, 1000] + ([4096, 5001] if summ else []):
        mode = o % 3
        add("api", "%s out %d" % (MODES[mode][0], o), mode=mode, out=o, lo=1, hi=1 if exact else 64)
    if not exact and callable(ns.get("hash_recurse")):
        add("rec", "hash_recurse: step", step=True, out=100, lo=2049, hi=MAXLEN)
        for a in range(0, 2048, 256) if summ else [0, 1792]:
            add("rec", "hash_recurse: chunk %d.." % a, step=False, out=65, lo=a + (a > 0), hi=a + 256)
    return v


def check(args):
    t0 = time.time()
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    verbose = "-v" in args
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED") or 1)
    rs = []
    notes = []
    errors = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        c = pool.apply(one, (dict(kind="contract", name="compress", summary=False),))
        rs.append(c)
        summ = bool(c["ok"])
        if not summ:
            notes.append("compress() is not what its contract says or has another shape; executed in place")
        try:
            ns = pool.apply(names)
        except Exception as e:
            ns = {}
            errors.append(repr(e))
        ns = {n: len for n in ns}
        js = job_list(thorough, summ, False, seed, ns)
        if only:
            js = [j for j in js if only in j["name"]]
        js.sort(key=lambda j: -j["hi"] if summ else j["hi"])

        def go(js):
            done = []
            cex = 0
            for r in pool.imap_unordered(one, js):
                done.append(r)
                if verbose:
                    print("[%6.2fs] %s: paths %d queries %d cex %d err %d %s" % (r["wall"], r["name"], r["paths"], r["queries"], len(r["cex"]), len(r["errors"]), r["unsup"] or ""), flush=True)
                cex += len(r["cex"])
                if cex >= 3:
                    break
            return done

        first = go(js)
        un = [r for r in first if r["unsup"]]
        rs += first
        if un:
            notes.append("%d jobs use something the symbolic lengths do not support (%s); lengths taken one by one" % (len(un), un[0]["unsup"]))
            if any(not r["name"].startswith("hash_recurse") for r in un):
                second = go(job_list(thorough, summ, True, seed, ns))
                rs += second
                for r in second:
                    if r["unsup"]:
                        errors.append("%s: not supported: %s" % (r["name"], r["unsup"]))
        pool.terminate()
    confirmed = []
    rdir = os.path.join(VERIF, "evidence/replays")
    os.makedirs(rdir, exist_ok=True)
    k = 0
    for r in rs:
        errors += ["%s: %s" % (r["name"], e) for e in r["errors"]]
        for c in r["cex"]:
            if len(confirmed) >= 3 or k >= 20:
                break
            f = os.path.join(rdir, "C18-%d.json" % k)
            k += 1
            c["note"] = r["name"]
            json.dump(c, open(f, "w"))
            what = replay(f)
            if what:
                confirmed.append((r["name"] + ": " + c["what"] + " -- " + what, f))
            else:
                errors.append("%s: counterexample does not reproduce: %s" % (r["name"], c["what"]))
    s = lambda x: sum(r[x] for r in rs)
    names_run = ["compress", "hash", "keyed_hash", "derive_key", "hash_recurse"]
    cov = {
        "explanation": "The functions of python/baokeshed.py are run on symbolic bytes and symbolic lengths; every decision on the length is taken both ways, and the bytes that come out are compared with the specified tree as terms, by normal form and z3. The recursion is also checked one step at a time for every length and offset.",
        "bounds": ["message lengths 0..%d, every length in between" % (2048 * (33 if thorough else 17)), "one step of the recursion: every length to 2^63-1, every offset below 2^60", "output lengths listed in the job names"],
        "functions_encoded": names_run, "functions_summarised": ["compress, after its contract was shown"] if summ else [],
        "jobs": len(rs), "paths": s("paths"), "obligations": s("obligations"), "discharged": s("discharged"),
        "solver_queries": s("queries"), "solver_seconds": s("time"), "solver": "z3 " + z3.get_version_string(),
        "equalities_by_normal_form": s("by_form"), "equalities_by_solver": s("by_solver"), "rewrite_rules_certified_by_solver": s("rules"),
        "samples": [r["name"] for r in rs[:12]], "notes": notes + [n for r in rs for n in r["notes"]][:20], "errors": errors[:20],
    }
    ev = {"property": "C18", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["the model of Python's integers, byte strings and built-ins in pyx/sym.py", "z3"],
          "wall_s": time.time() - t0, "violations": len(confirmed)}
    json.dump(ev, open(os.path.join(VERIF, "evidence/C18.json"), "w"), indent=1)
    print("C18: %d jobs, %d paths, %d/%d obligations, %d solver queries in %.1f s, wall %.1f s" % (len(rs), cov["paths"], cov["discharged"], cov["obligations"], cov["solver_queries"], cov["solver_seconds"], ev["wall_s"]))
    if confirmed:
        for w, f in confirmed:
            print("VIOLATION property=C18 replay=%s" % f)
            print(w)
        return 1
    if errors:
        for e in errors[:8]:
            print("ERROR " + e)
        return 2
    return 0


def names():
    return [k for k, v in load().items() if callable(v)]


# ------------------------------------------------------------ replay

CHILD_SRC = r'''
import sys, json, hashlib
sys.path.insert(0, sys.argv[2])
import importlib.util
spec = importlib.util.spec_from_file_location("baokeshed", sys.argv[3])
b = importlib.util.module_from_spec(spec)
sys.dont_write_bytecode = True
spec.loader.exec_module(b)
c = json.load(open(sys.argv[1]))
key, msg = bytes.fromhex(c["key"]), bytes.fromhex(c["msg"])
kw = [int.from_bytes(key[4*i:4*i+4], "little") for i in range(8)]
def h(at, n, off):
    return hashlib.sha256(repr((at, n, off)).encode()).digest()
class Fake:
    """a message that only knows which part of it it is"""
    def __init__(self, at, n):
        self.at, self.n = at, n
    def __len__(self):
        return self.n
    def __getitem__(self, s):
        a, e, st = s.indices(self.n)
        assert st == 1
        return Fake(self.at + a, max(0, e - a))
class Out:
    def __init__(self, d):
        self.d = d
    def chaining_value(self):
        return bytearray(self.d)
if c["kind"] == "api":
    f = [b.hash, b.keyed_hash, b.derive_key][c["mode"]]
    got = f(msg, c["out"]) if c["mode"] == 0 else f(key, msg, c["out"])
elif c["kind"] == "chunk":
    o = b.hash_recurse(msg, kw, c["off"], c["mode"])
    got = bytes(o.root_output_bytes(c["out"])) + bytes(o.chaining_value())
else:
    real = b.hash_recurse
    b.hash_recurse = lambda inp, k, off, fl: Out(h(inp.at, inp.n, off) if (list(k), fl) == (kw, c["mode"]) else b"?" * 32)
    o = real(Fake(0, c["len"]), kw, c["off"], c["mode"])
    got = bytes(o.root_output_bytes(c["out"])) + bytes(o.chaining_value())
print("RESULT", bytes(got).hex())
'''


def expected(c):
    key, msg = bytes.fromhex(c["key"]), bytes.fromhex(c["msg"])
    kw = oracle.words(key)
    if c["kind"] == "api":
        k = oracle.IV if c["mode"] == 0 else kw
        return oracle.root(oracle.tree(msg, k, 0, MODES[c["mode"]][1]), c["out"])
    if c["kind"] == "chunk":
        n = oracle.chunk(msg, kw, c["off"], c["mode"])
    else:
        import hashlib
        h = lambda at, n, off: hashlib.sha256(repr((at, n, off)).encode()).digest()
        k = 2048
        while c["len"] > 2 * k:
            k *= 2
        n = oracle.parent(h(0, k, c["off"]), h(k, c["len"] - k, c["off"] + k), kw, c["mode"])
    return oracle.root(n, c["out"]) + oracle.cv(n)


def replay(f):
    """What the real code does wrong, or None."""
    c = json.load(open(f))
    want = expected(c).hex()
    try:
        p = subprocess.run([sys.executable, "-B", "-c", CHILD_SRC, f, os.path.dirname(SRC), SRC], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "does not end within 120 s"
    for l in p.stdout.splitlines():
        if l.startswith("RESULT"):
            got = l[7:].strip()
            return None if got == want else "got %s expected %s" % (got[:64], want[:64])
    return "raises " + (p.stderr.strip().splitlines() or ["?"])[-1]


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[3:]))
    print(replay(sys.argv[2]) or "as specified")
