"""Symbolic Python values: integers that are linear in the message length,
words and byte strings made of terms. One run of the real code follows one
path; the driver reruns it until every decision has been taken both ways."""
import builtins
import term as t


class Unsup(Exception):
    pass


class Ctx:
    def __init__(self, lo, hi, prefix=()):
        self.lo, self.hi = lo, hi
        self.prefix = list(prefix)
        self.taken = []
        self.left = []
        self.forks = 0
        self.conds = []
        self.local = None

    def turn(self):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = True
            self.forks += 1
            self.left.append(self.taken + [False])
        self.taken.append(c)
        return c

    def bit(self, c):
        """Is the bit c of the data set?"""
        if t.cst(c) is not None:
            return bool(t.cst(c))
        if self.local is not None:
            return self.local.bit(c)
        if not t.feasible(self.conds + [c]):
            return False
        if not t.feasible(self.conds + [t.inv(c)]):
            return True
        r = self.turn()
        self.conds.append(c if r else t.inv(c))
        return r

    def decide(self, k):
        """Is the length more than k?"""
        if self.lo > k:
            return True
        if self.hi <= k:
            return False
        c = self.turn()
        if c:
            self.lo = k + 1
        else:
            self.hi = k
        return c


class Local:
    """Decisions on data inside an expression, whose results are merged."""

    def __init__(self, conds, prefix):
        self.conds, self.prefix = list(conds), prefix
        self.taken, self.left = [], []

    def bit(self, c):
        if not t.feasible(self.conds + [c]):
            return False
        if not t.feasible(self.conds + [t.inv(c)]):
            return True
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            r = True
            self.left.append(self.taken + [False])
        self.taken.append(r)
        self.conds.append(c if r else t.inv(c))
        return r


class NoMerge(Exception):
    pass


def each(f):
    """All results of f, merged by the data they depend on."""
    outer = CX.local
    base = outer.conds if outer is not None else CX.conds
    todo, rs = [[]], []
    try:
        while todo:
            CX.local = Local(base, todo.pop())
            try:
                v = f()
            except Unsup:
                raise
            except Exception:
                raise NoMerge()
            rs.append((CX.local.conds[len(base):], v))
            todo.extend(CX.local.left)
            if len(rs) > 64:
                raise NoMerge()
    finally:
        CX.local = outer
    v = rs[-1][1]
    for (cs, x) in reversed(rs[:-1]):
        c = t.const(1, 1)
        for k in cs:
            c = t.bits("&", c, k)
        v = merge(c, x, v)
    return v


def merge(c, x, y):
    if x is y:
        return x
    if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
        return type(x)(merge(c, a, b) for a, b in zip(x, y))
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        f = lambda z: z.c if isinstance(z, SBool) else t.const(z, 1)
        return sbool(t.plain(c, f(x), f(y)))
    x, y = norm(x), norm(y)
    if not isinstance(x, (int, SWord)) or not isinstance(y, (int, SWord)):
        raise NoMerge()
    if isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    x, y = signed_of(x), signed_of(y)
    neg = x.neg or y.neg
    n = max(t.w(x.n), t.w(y.n)) + (1 if neg and not (x.neg and y.neg) else 0)
    return back(t.sel(c, x.fit(n), y.fit(n)), neg)


def back(n, neg):
    """A Python value again; without a sign where that bit is known."""
    if neg:
        k = t.w(n)
        if t.cst(t.ext(n, k - 1, 1)) != 0:
            c = t.cst(n)
            return SWord(n, True) if c is None else c - (1 << k)
        n = t.ext(n, 0, k - 1)
    while t.w(n) > 1:
        x, lo, k = t.segs(n)[-1]
        if t.cst(x) is None or t.cst(x) >> (k - 1) or lo:
            break
        n = t.ext(n, 0, t.w(n) - (k - t.cst(x).bit_length() if t.cst(x) else min(k, t.w(n) - 1)))
    return word(n)


def choose(c, f, g):
    """f() if c else g()"""
    if not isinstance(c, SBool):
        return f() if c else g()
    try:
        return each(lambda: f() if c else g())
    except NoMerge:
        return f() if c else g()


def calls(f):
    """A function of words alone: one call gives the merged result."""
    import functools

    @functools.wraps(f)
    def g(*a, **kw):
        if kw or CX is None or not all(isinstance(x, (int, SWord)) for x in a) or not any(isinstance(x, SWord) for x in a):
            return f(*a, **kw)
        try:
            return each(lambda: f(*a))
        except NoMerge:
            return f(*a)
    return g


class SBool:
    """A truth value that depends on the data."""
    __hash__ = None

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CX.bit(self.c)

    def two(self, o, k):
        if isinstance(o, (bool, SBool)):
            return sbool(t.bits(k, self.c, o.c if isinstance(o, SBool) else t.const(o, 1)))
        return SWord(self.c).bitop(k, o)

    def __and__(self, o):
        return self.two(o, "&")

    def __or__(self, o):
        return self.two(o, "|")

    def __xor__(self, o):
        return self.two(o, "^")

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def num(self):
        return SWord(self.c)

    def __add__(self, o):
        return self.num() + o

    def __mul__(self, o):
        return self.num() * o

    def __lshift__(self, o):
        return self.num() << o

    __radd__, __rmul__ = __add__, __mul__


def sbool(c):
    return bool(t.cst(c)) if t.cst(c) is not None else SBool(c)


def signed_of(x):
    """A word, possibly negative."""
    x = norm(x)
    if isinstance(x, SBool):
        return SWord(x.c)
    if isinstance(x, int) and x < 0:
        k = x.bit_length() + 1
        return SWord(t.const(x & ((1 << k) - 1), k), True)
    if isinstance(x, SWord):
        return x
    return word_of(x)


CX = None
CERT = []


def set_ctx(c):
    global CX
    CX = c


def sint(a, b, d=1):
    if a == 0:
        return b // d
    x, y = (a * CX.lo + b) // d, (a * CX.hi + b) // d
    return x if x == y else SInt(a, b, d)


def norm(x):
    """An int where the path has fixed the value."""
    return sint(x.a, x.b, x.d) if isinstance(x, SInt) else x


class SInt:
    """floor((a*length + b) / d)"""
    __hash__ = None

    def __init__(self, a, b, d):
        self.a, self.b, self.d = a, b, d

    def rng(self):
        x, y = (self.a * CX.lo + self.b) // self.d, (self.a * CX.hi + self.b) // self.d
        return min(x, y), max(x, y)

    def le(self, c):
        a, m = self.a, (c + 1) * self.d - 1 - self.b
        if a > 0:
            return not CX.decide(m // a)
        return CX.decide(-(m // -a) - 1)

    def cmp_le(self, o):
        o = val(o)
        if isinstance(o, int):
            return self.le(o)
        if isinstance(o, SInt):
            if self.d == o.d == 1:
                x = sint(self.a - o.a, self.b - o.b)
                return x <= 0
            return conc(self) <= conc(o)
        raise Unsup("comparison of a length with " + type(o).__name__)

    def __le__(self, o):
        return self.cmp_le(o)

    def __gt__(self, o):
        return not self.cmp_le(o)

    def __lt__(self, o):
        return self.cmp_le(o - 1)

    def __ge__(self, o):
        return not self.cmp_le(o - 1)

    def __eq__(self, o):
        if o is None or not isinstance(val(o), (int, SInt)):
            return False
        return self.cmp_le(o) and not self.cmp_le(o - 1)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self != 0

    def __add__(self, o):
        o = val(o)
        if isinstance(o, int):
            return sint(self.a, self.b + o * self.d, self.d)
        if isinstance(o, SInt):
            if self.d == o.d == 1:
                return sint(self.a + o.a, self.b + o.b)
            return conc(self) + conc(o)
        if isinstance(o, SWord):
            return word_of(self) + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        if self.d != 1:
            return -conc(self)
        return sint(-self.a, -self.b)

    def __sub__(self, o):
        o = val(o)
        if isinstance(o, (int, SInt)):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = val(o)
        if isinstance(o, int):
            if self.d != 1:
                return conc(self) * o
            return sint(self.a * o, self.b * o)
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * conc(self)
        return self * o

    def __floordiv__(self, o):
        o = conc(o)
        if o <= 0:
            return conc(self) // o
        return sint(self.a, self.b, self.d * o)

    def __rfloordiv__(self, o):
        return o // conc(self)

    def __mod__(self, o):
        o = conc(o)
        q = conc(self // o)
        return self - q * o

    def __divmod__(self, o):
        return self // o, self % o

    def __rshift__(self, o):
        return self // (1 << conc(o))

    def __lshift__(self, o):
        return self * (1 << conc(o))

    def __rlshift__(self, o):
        return o << conc(self)

    def __rrshift__(self, o):
        return o >> conc(self)

    def __rpow__(self, o):
        return o ** conc(self)

    def __pow__(self, o):
        return conc(self) ** conc(o)

    def __and__(self, o):
        o = val(o)
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if isinstance(o, SWord):
            return word_of(self) & o
        return conc(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SWord):
            return word_of(self) | o
        return conc(self) | conc(o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SWord):
            return word_of(self) ^ o
        return word_of(self) ^ word_of(o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __index__(self):
        return conc(self)

    __int__ = __index__

    def __float__(self):
        return float(conc(self))

    def __str__(self):
        raise Unsup("text of a length")

    def bit_length(self):
        if self < 0:
            return (-self).bit_length()
        k = 0
        while self >= (1 << k):
            k += 1
        return k

    def to_bytes(self, n=1, order="big", **kw):
        return word_of(self).to_bytes(n, order)


def conc(x):
    """Fix the value, trying every one."""
    x = norm(x)
    if isinstance(x, SBool):
        return int(bool(x))
    if isinstance(x, SWord):
        return x.fix()
    if not isinstance(x, SInt):
        return x
    lo, hi = x.rng()
    if hi - lo > 5000:
        raise Unsup("too many values")
    while True:
        x = norm(x)
        if not isinstance(x, SInt):
            return x
        lo, hi = x.rng()
        x <= (lo + hi) // 2


def val(x):
    return norm(x)


def word_of(x):
    x = norm(x)
    if isinstance(x, SBool):
        return SWord(x.c)
    if isinstance(x, SWord):
        if x.neg:
            if CX.bit(x.top()):
                raise Unsup("negative word")
            return SWord(t.ext(x.n, 0, t.w(x.n) - 1))
        return x
    if isinstance(x, SInt):
        lo, hi = x.rng()
        if x.d != 1 or lo < 0 or hi >> 64:
            return SWord(t.const(conc(x), 64))
        return SWord(t.ext(t.mk(("len", 64, x.a, x.b)), 0, max(1, hi.bit_length())))
    if isinstance(x, int):
        if x < 0:
            raise Unsup("negative word")
        return SWord(t.const(x, max(1, x.bit_length())))
    raise Unsup("word from " + type(x).__name__)


def word(n):
    """Back to Python: an int if constant."""
    c = t.cst(n)
    return c if c is not None else SWord(n)


class SWord:
    """A natural number below 2^width, or a two's complement one."""
    __hash__ = None

    def __init__(self, n, neg=False):
        self.n, self.neg = n, neg

    def top(self):
        return t.ext(self.n, t.w(self.n) - 1, 1)

    def fit(self, n):
        k = t.w(self.n)
        if not self.neg:
            return t.zext(self.n, n)
        return t.cat(list(t.segs(self.n)) + [s for _ in range(n - k) for s in t.segs(self.top())])

    def two(self, o):
        o = word_of(o)
        return word_of(self).n, o.n

    def plus(self, o, k):
        if not isinstance(o, (int, SInt, SWord, SBool)):
            return NotImplemented
        o = signed_of(o)
        if not self.neg and not o.neg and k == 1:
            a, b = self.n, o.n
            w = max(t.w(a), t.w(b)) + 1
            r = t.disjoint(t.zext(a, w - 1), t.zext(b, w - 1))
            if r is None:
                r = t.add([t.zext(a, w), t.zext(b, w)], w)
            cert("+", a, b, r)
            return word(r)
        w = max(t.w(self.n), t.w(o.n)) + 2
        return back(t.add([self.fit(w), (o.fit(w), k)], w), True)

    def __add__(self, o):
        return self.plus(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self.plus(o, -1)

    def __rsub__(self, o):
        if not isinstance(o, (int, SInt)):
            return NotImplemented
        return signed_of(o).plus(self, -1)

    def __neg__(self):
        return 0 - self

    def bitop(self, k, o):
        if not isinstance(o, (int, SInt, SWord, SBool)):
            return NotImplemented
        if k == "&" and isinstance(o, int) and o < 0 and not self.neg:
            o = o & ((1 << t.w(self.n)) - 1)
        o = signed_of(o)
        if k == "&" and self.neg != o.neg:
            x, y = (self, o) if self.neg else (o, self)
            w = t.w(y.n)
            return word(t.bits("&", t.ext(x.fit(max(w, t.w(x.n))), 0, w), y.n))
        if self.neg or o.neg:
            w = max(t.w(self.n), t.w(o.n)) + 1
            return back(t.bits(k, self.fit(w), o.fit(w)), True)
        a, b = self.n, o.n
        if k == "&":
            w = min(t.w(a), t.w(b))
            x, y = t.ext(a, 0, w), t.ext(b, 0, w)
        else:
            w = max(t.w(a), t.w(b))
            x, y = t.zext(a, w), t.zext(b, w)
        r = t.bits(k, x, y)
        cert(k, a, b, r)
        return word(r)

    def __and__(self, o):
        return self.bitop("&", o)

    __rand__ = __and__

    def __or__(self, o):
        return self.bitop("|", o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.bitop("^", o)

    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    def __lshift__(self, o):
        k = conc(o)
        if k == 0:
            return self
        return SWord(t.cat([(t.const(0, k), 0, k)] + list(t.segs(self.n))), self.neg)

    def __rlshift__(self, o):
        return o << conc(self)

    def __rrshift__(self, o):
        return o >> conc(self)

    def __rshift__(self, o):
        k = conc(o)
        w = t.w(self.n)
        if self.neg:
            return back(t.ext(self.fit(w + k), k, w), True)
        return word(t.ext(self.n, k, w - k)) if k < w else 0

    def __mod__(self, o):
        o = conc(o)
        if o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        raise Unsup("remainder of a word")

    def __mul__(self, o):
        if isinstance(o, SBool):
            return choose(o, lambda: self, lambda: 0)
        o = conc(o)
        if o == 0:
            return 0
        if o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        if 0 < o < 1 << 16:
            r = 0
            for i in range(o.bit_length()):
                if o >> i & 1:
                    r = (self << i) + r
            return r
        raise Unsup("product of a word")

    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = conc(o)
        if o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Unsup("quotient of a word")

    def __divmod__(self, o):
        return self // o, self % o

    def cmp(self, o, f):
        o = signed_of(o)
        w = max(t.w(self.n), t.w(o.n)) + 1
        x, y = self.fit(w), o.fit(w)
        if self.neg or o.neg:
            k = t.const(1 << (w - 1), w)
            x, y = t.add([x, k], w), t.add([y, k], w)
        return f(x, y)

    def __lt__(self, o):
        return sbool(self.cmp(o, t.lt))

    def __gt__(self, o):
        return sbool(self.cmp(o, lambda x, y: t.lt(y, x)))

    def __le__(self, o):
        return sbool(t.inv(self.cmp(o, lambda x, y: t.lt(y, x))))

    def __ge__(self, o):
        return sbool(t.inv(self.cmp(o, t.lt)))

    def __eq__(self, o):
        if not isinstance(o, (int, SInt, SWord, SBool)):
            return False
        return sbool(self.cmp(o, t.eq))

    def __ne__(self, o):
        if not isinstance(o, (int, SInt, SWord, SBool)):
            return True
        return sbool(t.inv(self.cmp(o, t.eq)))

    def __bool__(self):
        return bool(self != 0)

    def fix(self):
        """Fix the value, trying every one."""
        if t.w(self.n) > 8:
            raise Unsup("a number that depends on the data")
        r = 0
        for i in range(t.w(self.n)):
            r |= CX.bit(t.ext(self.n, i, 1)) << i
        return r - (1 << t.w(self.n)) if self.neg and r >> (t.w(self.n) - 1) else r

    __index__ = __int__ = fix

    def bit_length(self):
        n = word_of(self).n
        k = t.w(n)
        while k and not CX.bit(t.ext(n, k - 1, 1)):
            k -= 1
        return k

    def to_bytes(self, n=1, order="big", **kw):
        n = conc(n)
        if self.neg and CX.bit(self.top()):
            raise OverflowError("can't convert negative int to unsigned")
        x = word_of(self).n
        w = t.w(x)
        if w > 8 * n:
            k = w - 8 * n
            if not CX.bit(t.eq(t.ext(x, 8 * n, k), t.const(0, k))):
                raise OverflowError("int too big to convert")
            x = t.ext(x, 0, 8 * n)
        x = t.zext(x, 8 * n)
        r = [t.ext(x, 8 * i, 8) for i in range(n)]
        if order != "little":
            r.reverse()
        return SBytes.of(r)


def cert(op, a, b, r):
    if len(CERT) < 400:
        CERT.append((op, a, b, r))


def below(i, n):
    """i < n without deciding: True, False or a condition."""
    n = norm(n)
    if isinstance(n, int):
        return i < n
    if n.a == 1 and n.d == 1:
        k = i - n.b
        return True if CX.lo > k else False if CX.hi <= k else (k,)
    return i < conc(n)


def sel(c, x, y):
    return x if c is True else y if c is False else t.ite(c, x, y)


class View:
    """The message from a position on."""

    def __init__(self, at):
        self.at = at

    def get(self, i):
        return t.var("m%d" % (self.at + i), 8)

    def sub(self, i, n):
        return View(self.at + i)


class Items:
    def __init__(self, l):
        self.l = l

    def get(self, i):
        return self.l[i]

    def sub(self, i, n):
        return Items(self.l[i:i + n])


def top(n):
    n = norm(n)
    return n if isinstance(n, int) else n.rng()[1]


class SBytes:
    __hash__ = None

    def __new__(cls, x=None, *a):
        self = object.__new__(cls)
        if x is None:
            self.src, self.n = Items([]), 0
        elif isinstance(x, SBytes):
            self.src, self.n = (x.src if isinstance(x.src, View) else Items(list(x.src.l))), x.n
        elif isinstance(x, (int, SInt)):
            if norm(x) < 0:
                raise ValueError("negative count")
            m = top(x)
            if m > 1 << 22:
                raise Unsup("large buffer")
            self.src, self.n = Items([t.const(0, 8)] * m), norm(x)
        elif isinstance(x, (builtins.bytes, builtins.bytearray)):
            self.src, self.n = Items([t.const(c, 8) for c in x]), len(x)
        elif isinstance(x, str):
            return SBytes(x.encode(*a))
        else:
            l = [byte(v) for v in x]
            self.src, self.n = Items(l), len(l)
        return self

    def __init__(self, *a):
        pass

    @staticmethod
    def of(l):
        b = SBytes()
        b.src, b.n = Items(list(l)), len(l)
        return b

    @staticmethod
    def raw(src, n):
        b = SBytes()
        b.src, b.n = src, n
        return b

    @staticmethod
    def fromhex(s):
        return SBytes(builtins.bytes.fromhex(s))

    def size(self):
        self.n = norm(self.n)
        return self.n

    def __len__(self):
        return conc(self.n)

    def __bool__(self):
        return bool(self.size() > 0)

    def nodes(self):
        """All bytes, the number of them fixed."""
        n = conc(self.n)
        if n > 1 << 22:
            raise Unsup("large data")
        return [self.src.get(i) for i in range(n)]

    def __iter__(self):
        i = 0
        while i < self.size():
            yield word(self.src.get(i))
            i += 1

    def bounds(self, s):
        n = self.size()

        def clamp(v, dflt):
            if v is None:
                return dflt
            v = norm(v)
            if v < 0:
                v = norm(n + v)
                if v < 0:
                    v = 0
            return v if v <= n else n

        a, b = clamp(s.start, 0), clamp(s.stop, n)
        if not (a <= b):
            b = a
        return norm(a), norm(b)

    def __getitem__(self, s):
        if isinstance(s, slice):
            if s.step not in (None, 1):
                return SBytes.of(self.nodes()[builtins.slice(*(x if x is None else conc(x) for x in (s.start, s.stop, s.step)))])
            a, b = self.bounds(s)
            a = conc(a)
            b, n = norm(b), norm(b) - a
            if isinstance(self.src, View):
                return SBytes.raw(View(self.src.at + a), n)
            return SBytes.raw(self.src.sub(a, top(n)), n)
        i = norm(s)
        if i < 0:
            i = norm(self.size() + i)
        i = conc(i)
        if i < 0 or not (i < self.size()):
            raise IndexError("index out of range")
        return word(self.src.get(i))

    def own(self):
        if isinstance(self.src, View):
            m = top(self.n)
            if m > 1 << 22:
                raise Unsup("large data")
            self.src = Items([self.src.get(i) for i in range(m)])
        return self.src.l

    def __setitem__(self, s, x):
        l = self.own()
        if isinstance(s, slice):
            if s.step not in (None, 1):
                raise Unsup("step")
            x = x if isinstance(x, SBytes) else SBytes(x)
            a, b = self.bounds(s)
            a = conc(a)
            if norm(b - a) == x.size():
                for i in range(top(x.size())):
                    c = below(i, x.size())
                    if c is False:
                        break
                    l[a + i] = sel(c, x.src.get(i), l[a + i] if a + i < len(l) else t.const(0, 8))
            else:
                r = self[:a] + x + self[b:]
                self.src, self.n = Items(r.own()), r.n
            return
        i = conc(s)
        if i < 0:
            i = conc(self.n) + i
        if i < 0 or not (i < self.size()):
            raise IndexError("index out of range")
        l[i] = byte(x)

    def __delitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsup("del")
        a, b = self.bounds(s)
        r = self[:a] + self[b:]
        self.src, self.n = Items(r.own()), r.n

    def __add__(self, o):
        if not isinstance(o, SBytes):
            if not isinstance(o, (builtins.bytes, builtins.bytearray)):
                return NotImplemented
            o = SBytes(o)
        na, nb = self.size(), o.size()
        if isinstance(nb, int) and nb == 0:
            return SBytes(self)
        if isinstance(na, SInt):
            k = {o.src.get(i) for i in range(top(nb))} if top(nb) < 5000 else set()
            if len(k) != 1 or na.a != 1 or na.d != 1:
                na = conc(na)
            else:
                k = k.pop()
                n = norm(na + nb)
                return SBytes.raw(Items([sel(below(i, na), self.src.get(i) if i < top(na) else k, k) for i in range(top(n))]), n)
        return SBytes.raw(Items([self.src.get(i) for i in range(na)] + [o.src.get(i) for i in range(top(nb))]), norm(na + nb))

    def __radd__(self, o):
        return SBytes(o) + self

    def __iadd__(self, o):
        r = self + (o if isinstance(o, SBytes) else SBytes(o))
        self.src, self.n = r.src, r.n
        return self

    def extend(self, o):
        self += o

    def append(self, x):
        self += SBytes.of([byte(x)])

    def __mul__(self, k):
        k = norm(k)
        if isinstance(k, SInt):
            l = set(self.nodes()) if isinstance(self.size(), int) else set()
            if len(l) == 1 and self.size() == 1 and k.d == 1:
                if k < 0:
                    k = 0
                return SBytes.raw(Items(list(l) * top(k)), norm(k))
            k = conc(k)
        return SBytes.of(self.nodes() * k)

    __rmul__ = __mul__

    def ljust(self, n, fill=b" "):
        n = norm(n)
        if self.size() >= n:
            return SBytes(self)
        return self + SBytes(fill) * norm(n - self.size())

    def join(self, xs):
        r = SBytes()
        for i, x in enumerate(xs):
            if i and self.size() != 0:
                r = r + self
            r = r + x
        return r

    def copy(self):
        return SBytes(self)

    def tobytes(self):
        return SBytes(self)

    def __eq__(self, o):
        if not isinstance(o, SBytes):
            o = SBytes(o) if isinstance(o, (builtins.bytes, builtins.bytearray)) else None
        if o is None or self.size() != o.size():
            return False
        c = t.const(1, 1)
        for x, y in zip(self.nodes(), o.nodes()):
            c = t.bits("&", c, t.eq(x, y))
        return sbool(c)

    def __ne__(self, o):
        r = self == o
        return sbool(t.inv(r.c)) if isinstance(r, SBool) else not r


def byte(v):
    if isinstance(v, int):
        if not 0 <= v < 256:
            raise ValueError("byte must be in range(0, 256)")
        return t.const(v, 8)
    n = word_of(v).n
    if t.w(n) > 8:
        if not CX.bit(t.eq(t.ext(n, 8, t.w(n) - 8), t.const(0, t.w(n) - 8))):
            raise ValueError("byte must be in range(0, 256)")
        n = t.ext(n, 0, 8)
    return t.zext(n, 8)


# ------------------------------------------------------------ what the module sees

def s_len(x):
    return x.size() if isinstance(x, SBytes) else len(x)


def s_min(*a, **kw):
    if len(a) == 1:
        a = list(a[0])
    if kw:
        return min(*a, **kw)
    r = norm(a[0])
    for x in a[1:]:
        r = choose(x < r, lambda: norm(x), lambda: r)
    return r


def s_max(*a, **kw):
    if len(a) == 1:
        a = list(a[0])
    if kw:
        return max(*a, **kw)
    r = norm(a[0])
    for x in a[1:]:
        r = choose(x > r, lambda: norm(x), lambda: r)
    return r


def s_range(*a):
    a = [norm(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, st = conc(lo), conc(st)
    if st <= 0:
        return range(lo, conc(hi), st)

    def go():
        i = lo
        while i < hi:
            yield i
            i += st

    return go()


class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SInt, SWord, SBool))

    def __call__(cls, x=0, *a):
        if isinstance(x, SBool):
            return SWord(x.c)
        return x if isinstance(x, (SInt, SWord)) else builtins.int(x, *a)


class Int(metaclass=IntMeta):
    @staticmethod
    def from_bytes(b, byteorder="big", signed=False):
        b = b if isinstance(b, SBytes) else SBytes(b)
        l = b.nodes()
        if signed:
            raise Unsup("signed")
        if byteorder != "little":
            l.reverse()
        r = []
        for x in l:
            r.extend(t.segs(x))
        return word(t.cat(r)) if l else 0

    @staticmethod
    def to_bytes(x, n=1, order="big", **kw):
        return x.to_bytes(n, order)

    @staticmethod
    def bit_length(x):
        return x.bit_length()


def to_bytes(x, n=1, order="big", **kw):
    r = x.to_bytes(conc(n), order, **kw)
    return r if isinstance(r, SBytes) else SBytes(r)


class Struct:
    """struct.pack and unpack of little-endian words"""
    SZ = {"I": 4, "L": 4, "Q": 8, "B": 1, "H": 2}

    @staticmethod
    def fmt(f):
        import re
        if isinstance(f, bytes):
            f = f.decode()
        if not f.startswith("<"):
            raise Unsup("struct " + f)
        r = []
        for (k, c) in re.findall(r"(\d*)([A-Za-z])", f[1:]):
            if c not in Struct.SZ:
                raise Unsup("struct " + f)
            r += [Struct.SZ[c]] * int(k or 1)
        return r

    @staticmethod
    def calcsize(f):
        return sum(Struct.fmt(f))

    @staticmethod
    def unpack(f, b):
        return Struct.unpack_from(f, b, 0)

    @staticmethod
    def unpack_from(f, b, off=0):
        b = b if isinstance(b, SBytes) else SBytes(b)
        r = []
        for n in Struct.fmt(f):
            r.append(Int.from_bytes(b[off:off + n], "little"))
            off += n
        return tuple(r)

    @staticmethod
    def iter_unpack(f, b):
        n = Struct.calcsize(f)
        for i in range(0, conc(s_len(b)), n):
            yield Struct.unpack_from(f, b, i)

    @staticmethod
    def pack(f, *vs):
        r = SBytes()
        for (n, v) in zip(Struct.fmt(f), vs):
            r = r + to_bytes(v, n, "little")
        return r

    @staticmethod
    def pack_into(f, buf, off, *vs):
        r = Struct.pack(f, *vs)
        buf[off:off + conc(r.n)] = r


def s_import(name, *a, **kw):
    if name == "struct":
        return Struct
    return builtins.__import__(name, *a, **kw)


def space():
    b = dict(vars(builtins))
    b.update(len=s_len, min=s_min, max=s_max, range=s_range, int=Int, bytes=SBytes, bytearray=SBytes, memoryview=lambda x: x, __import__=s_import)
    return b
