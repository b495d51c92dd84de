"""Value domain of the analyses: Laurent polynomials with exact rational coefficients
over hash-consed atoms (inputs, 1/p, sqrt(p), log(p), gated joins, opaque calls...),
and hash-consed boolean formulas over sign conditions of such polynomials."""
from fractions import Fraction
import heapq
import math
import struct

TOL = Fraction(1, 10**9)


class Atom:
    __slots__ = ("id", "kind", "args", "depth", "isint", "lo", "hi", "name")
    table = {}
    byid = []

    def __repr__(self):
        return fmt_atom(self)


def atom(kind, *args, isint=False, lo=None, hi=None, name=None):
    key = (kind,) + args
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid)
        a.kind = kind
        a.args = args
        a.isint = isint
        a.lo, a.hi = lo, hi
        a.name = name
        d = 0
        for x in args:
            d = max(d, _depth(x))
        a.depth = d + 1
        Atom.byid.append(a)
        Atom.table[key] = a
    return a


def _depth(x):
    if isinstance(x, Poly):
        return x.depth()
    if isinstance(x, BExpr):
        return x.depth
    if isinstance(x, Atom):
        return x.depth
    if isinstance(x, tuple):
        return max((_depth(y) for y in x), default=0)
    return 0


def var(name, isint=False, lo=None, hi=None):
    a = atom("var", name, isint=isint, lo=lo, hi=hi)
    return Poly({((a.id, 1),): 1})


def is_var_atom(a):
    return a.kind == "var"


class Poly:
    __slots__ = ("t", "_h", "_d", "_i")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._d = None
        self._i = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def depth(self):
        if self._d is None:
            d = 0
            for m in self.t:
                for a, _ in m:
                    d = max(d, Atom.byid[a].depth)
            self._d = d
        return self._d

    def isint(self):
        if self._i is None:
            self._i = all((isinstance(c, int) or c.denominator == 1) and
                          all(e > 0 and Atom.byid[a].isint for a, e in m) for m, c in self.t.items())
        return self._i

    def const(self):
        """value if constant else None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = x
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        return self + (-o)

    def __rsub__(self, o):
        return K(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(a) * len(b) > MAXMUL[0]:
            raise TooBig(len(a) * len(b))
        r = {}
        special = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, sp = mmul(m1, m2)
                special = special or sp
                c = c1 * c2
                x = r.get(m)
                if x is None:
                    r[m] = c
                else:
                    r[m] = x + c
        r = {m: norm(c) for m, c in r.items() if c != 0}
        p = Poly(r)
        if special:
            p = reduce_sqrt(p)
        return p

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return inv(self) ** (-n)
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        return div(self, o)

    def __repr__(self):
        return fmt(self)


class TooBig(Exception):
    pass


MAXMUL = [40_000_000]


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    if len(m1) == 1 and len(m2) == 1:
        (a, e), (b, f) = m1[0], m2[0]
        if a < b:
            return (m1[0], m2[0]), False
        if b < a:
            return (m2[0], m1[0]), False
        k = Atom.byid[a].kind
        if e + f == 0:
            return (), False
        return ((a, e + f),), k == "sqrt"
    sp = False
    d = dict(m1)
    for a, e in m2:
        x = d.get(a)
        if x is None:
            d[a] = e
        else:
            x += e
            if x == 0:
                del d[a]
            else:
                d[a] = x
                if Atom.byid[a].kind == "sqrt":
                    sp = True
    return tuple(sorted(d.items())), sp


def K(c):
    if isinstance(c, float):
        c = rat_of_float(c)
    if c == 0:
        return ZERO
    return Poly({(): norm(c)})


ZERO = Poly({})
ONE = Poly({(): 1})

_rcache = {}


def rat_of_float(x):
    """The rational a double literal denotes: the simplest p/q (q<=1000) it is the nearest
    double of, else its exact dyadic value."""
    r = _rcache.get(x)
    if r is not None:
        return r
    if math.isinf(x) or math.isnan(x):
        raise ValueError("non-finite")
    e = Fraction(x)
    if e.denominator <= 1024:
        r = norm(e)
    else:
        r = e
        if abs(x) > 1e-12:
            for q in (3, 5, 6, 7, 9, 10, 11, 12, 15, 18, 20, 24, 27, 30, 36, 40, 45, 48, 50, 54, 60, 72, 80, 81, 90, 96,
                      100, 108, 120, 135, 144, 160, 180, 192, 200, 216, 240, 250, 270, 300, 360, 400, 500, 1000):
                pnum = round(x * q)
                if abs(pnum) < 10**6 and float(Fraction(pnum, q)) == x:
                    r = norm(Fraction(pnum, q))
                    break
            else:
                # a/3 with a dyadic, computed with one rounding (e.g. 2/3., 4/3.)
                f = e.limit_denominator(1000)
                if f != 0 and abs(float(f) - x) <= 2 * math.ulp(x):
                    r = norm(f)
    _rcache[x] = r
    return r


def leading(p):
    m = max(p.t, key=lambda m: (sum(abs(e) for _, e in m), m))
    return m, p.t[m]


def mono_content(p):
    """monomial gcd (Laurent): per atom, the minimum exponent over all terms"""
    it = iter(p.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e == 0:
                del g[a]
            else:
                g[a] = e
        for a, e in d.items():
            if e < 0 and a not in g:
                g[a] = e
    # atoms with negative exponents missing in some terms: min(e,0)
    for m in p.t:
        d = dict(m)
        for a in list(g):
            g[a] = min(g[a], d.get(a, 0))
            if g[a] == 0:
                del g[a]
    return tuple(sorted(g.items()))


def inv(p):
    p = cancel(p)
    if not p.t:
        raise ZeroDivisionError("1/0 in value domain")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = K(norm(Fraction(1) / Fraction(c)))
        for a, e in m:
            at = Atom.byid[a]
            if at.kind == "sqrt" and e > 0:
                q = at.args[0]
                r = r * (Poly({((a, 1),): 1}) * inv(q)) ** e
            elif at.kind == "inv":
                r = r * (at.args[0] ** e if e > 0 else Poly({((a, -e),): 1}))
            else:
                r = r * Poly({((a, -e),): 1})
        return r
    g = mono_content(p)
    if g:
        gi = inv(Poly({g: 1}))
        rest = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in g:
                f = d.get(a, 0) - e
                if f:
                    d[a] = f
                else:
                    d.pop(a, None)
            rest[tuple(sorted(d.items()))] = c
        return gi * inv(Poly(rest))
    _, c = leading(p)
    q = p.scale(norm(Fraction(1) / Fraction(c)))
    a = atom("inv", q)
    return Poly({((a.id, 1),): norm(Fraction(1) / Fraction(c))})


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return a.scale(norm(Fraction(1) / Fraction(c)))
    if not a.t:
        return ZERO
    # a == k*b ?
    if len(a.t) == len(b.t):
        m = next(iter(b.t))
        if m in a.t:
            k = Fraction(a.t[m]) / Fraction(b.t[m])
            if a == b.scale(norm(k)):
                return K(norm(k))
    return a * inv(b)


CANCEL = [False]


def cancel(p):
    """cancel common factors between the terms of p and the denominators of its 1/q atoms"""
    if not CANCEL[0]:
        return p
    for a in sorted(p.atoms(), reverse=True):
        at = Atom.byid[a]
        if at.kind != "inv":
            continue
        b = at.args[0]
        parts = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for x, f in m:
                if x == a:
                    e = f
                else:
                    rest.append((x, f))
            parts.setdefault(e, {})[tuple(rest)] = c
        k = max(parts)
        if k <= 0:
            continue
        num = ZERO
        for e, t in parts.items():
            f = Poly(t)
            for _ in range(k - e):
                f = f * b
            num = num + f
        k0 = k
        while k > 0:
            q = exact_div(num, b, False)
            if q is None:
                break
            num, k = q, k - 1
        if k < k0:
            p = num * Poly({((a, k),): 1}) if k else num
    return p


def sqrt(p):
    p = cancel(p)
    c = p.const()
    if c is not None:
        f = Fraction(c)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return K(norm(Fraction(n, d)))
            return K(Fraction(math.sqrt(c)))
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k == 1 and m and all(e % 2 == 0 for _, e in m):
            q = Poly({tuple((a, e // 2) for a, e in m): 1})
            if q.t and not any(Atom.byid[a].kind in ("sqrt", "inv") for a, _ in m):
                lo = all((Atom.byid[a].lo is not None and Atom.byid[a].lo >= 0) or (e // 2) % 2 == 0 for a, e in m)
                return q if lo else pabs(q)
    # pull out rational square content
    _, lc = leading(p)
    if p.t and lc > 0:
        f = Fraction(lc)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator and f != 1:
            r = Fraction(n, d)
            return sqrt(p.scale(1 / f)).scale(norm(r))
    # sqrt(r / q) = sqrt(r) sqrt(q) / q for a q whose own root is taken elsewhere (so q >= 0)
    g = [(x, e) for x, e in mono_content(p) if Atom.byid[x].kind == "inv" and e > 0 and
         ("sqrt", Atom.byid[x].args[0]) in SQRT_OF]
    if g:
        f = ONE
        rest = p
        for x, e in g:
            q = Atom.byid[x].args[0]
            rest = rest * Poly({((x, -e),): 1})
            f = f * (sqrt(q) * inv(q)) ** e
        if len(rest.t) == len(p.t):
            return sqrt(rest) * f
    a = atom("sqrt", p, lo=0)
    SQRT_OF.add(("sqrt", p))
    return Poly({((a.id, 1),): 1})


SQRT_OF = set()


def reduce_sqrt(p):
    out = None
    keep = {}
    for m, c in p.t.items():
        hit = None
        for a, e in m:
            if e >= 2 or e < 0:
                if Atom.byid[a].kind == "sqrt":
                    hit = (a, e)
                    break
        if hit is None:
            keep[m] = keep.get(m, 0) + c
        else:
            a, e = hit
            q = Atom.byid[a].args[0]
            rest = tuple((x, f) for x, f in m if x != a)
            h, r = divmod(e, 2)
            if h > 0:
                # sqrt(q)^2 * (1/q) = 1 without expanding q
                _, lc = leading(q)
                ia = Atom.table.get(("inv", q if lc == 1 else q.scale(norm(Fraction(1) / Fraction(lc)))))
                if ia is not None:
                    d = dict(rest)
                    k = min(h, d.get(ia.id, 0))
                    if k > 0:
                        h -= k
                        d[ia.id] -= k
                        if not d[ia.id]:
                            del d[ia.id]
                        rest = tuple(sorted(d.items()))
                        c = norm(c * lc ** k)
            f = q ** h if h >= 0 else inv(q) ** (-h)
            if r:
                rest = mmul(rest, ((a, 1),))[0]
            term = reduce_sqrt(Poly({rest: c})) * f
            out = term if out is None else out + term
    r = Poly({m: c for m, c in keep.items() if c != 0})
    return r if out is None else r + out


def is_zero(p, tol=TOL):
    """True only if p is identically zero (up to coefficient tolerance) as a function."""
    for _ in range(200):
        if all(abs(c) <= tol for c in p.t.values()):
            return True
        best = None
        for a in p.atoms():
            at = Atom.byid[a]
            if at.kind in ("inv", "sqrt") and (best is None or at.depth > best.depth):
                best = at
        # negative exponents on plain atoms: harmless, monomials stay independent
        if best is None:
            return False
        parts = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for a, f in m:
                if a == best.id:
                    e = f
                else:
                    rest.append((a, f))
            parts.setdefault(e, {})[tuple(rest)] = c
        if best.kind == "inv":
            kmax = max(parts)
            b = best.args[0]
            acc = ZERO
            pw = {0: ONE}
            for e, t in parts.items():
                n = kmax - e
                for i in range(1, n + 1):
                    if i not in pw:
                        pw[i] = pw[i - 1] * b
                acc = acc + Poly(t) * pw[n]
            p = acc
        else:
            A = parts.get(0, {})
            B = parts.get(1, {})
            if set(parts) - {0, 1}:
                p = reduce_sqrt(p)
                continue
            return is_zero(Poly(A), tol) and is_zero(Poly(B), tol)
    return False


def equal(a, b, tol=TOL):
    return is_zero(a - b, tol)


def diff(p, v):
    """d p / d v  (v: Atom)"""
    r = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = datom(Atom.byid[a], v)
            if not da.t:
                continue
            rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
            r = r + Poly({rest: norm(c * e)}) * da
    return r


def datom(at, v):
    if at is v:
        return ONE
    if at.kind == "var":
        return ZERO
    if not depends(at, v):
        return ZERO
    me = Poly({((at.id, 1),): 1})
    if at.kind == "inv":
        return -(me * me) * diff(at.args[0], v)
    if at.kind == "sqrt":
        return diff(at.args[0], v) * me * inv(at.args[0]).scale(Fraction(1, 2))
    if at.kind == "log":
        return diff(at.args[0], v) * inv(at.args[0])
    if at.kind == "ite":
        c, x, y = at.args
        if c.kind == "eq":               # a set without interior
            return diff(y, v)
        return ite(c, diff(x, v), diff(y, v))
    if at.kind == "abs":
        d = diff(at.args[0], v)
        return ite(bcmp("lt", at.args[0]), -d, d)
    raise ValueError(f"cannot differentiate {at}")


_dep = {}


def depends(x, v):
    """does value/atom x mention atom v (transitively)?"""
    if isinstance(x, Atom):
        if x is v:
            return True
        k = (x.id, v.id)
        r = _dep.get(k)
        if r is None:
            r = any(depends(y, v) for y in x.args)
            _dep[k] = r
        return r
    if isinstance(x, Poly):
        return any(depends(Atom.byid[a], v) for a in x.atoms())
    if isinstance(x, BExpr):
        return any(depends(y, v) for y in x.args)
    if isinstance(x, tuple):
        return any(depends(y, v) for y in x)
    return False


_supp = {}


def support(x):
    """set of leaf ('var'-kind and nullary) atoms mentioned transitively (shared subterms visited once)"""
    if isinstance(x, Atom):
        r = _supp.get(x.id)
        if r is None:
            r = frozenset((x,)) if x.kind == "var" else frozenset().union(*[support(y) for y in x.args])
            _supp[x.id] = r
        return r
    if isinstance(x, Poly):
        return frozenset().union(*[support(Atom.byid[a]) for a in x.atoms()])
    if isinstance(x, BExpr):
        r = _supp.get(x)
        if r is None:
            r = _supp[x] = frozenset().union(*[support(y) for y in x.args])
        return r
    if isinstance(x, tuple):
        return frozenset().union(*[support(y) for y in x])
    return frozenset()


REBUILD = {}


def subst(x, mp, memo=None):
    """substitute atoms by polys: mp {Atom: Poly}; rebuilds dependent atoms"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        r = ZERO
        cache = {}
        touched = {}
        for a in x.atoms():
            touched[a] = subst_atom(Atom.byid[a], mp, memo)
        for m, c in x.t.items():
            term = K(c)
            for a, e in m:
                s = touched[a]
                if s is None:
                    term = term * Poly({((a, e),): 1})
                else:
                    term = term * (s ** e)
            r = r + term
        return r
    if isinstance(x, BExpr):
        if x.kind in ("true", "false"):
            return x
        if x.kind in ("lt", "le", "eq"):
            return bcmp(x.kind, subst(x.args[0], mp, memo))
        args = [subst(a, mp, memo) if isinstance(a, (Poly, BExpr, tuple)) else a for a in x.args]
        if x.kind == "not":
            return bnot(args[0])
        if x.kind == "and":
            return band(*args)
        if x.kind == "or":
            return bor(*args)
        return batom(*args)
    if isinstance(x, tuple):
        return tuple(subst(y, mp, memo) if isinstance(y, (Poly, BExpr, tuple)) else y for y in x)
    return x


def subst_atom(at, mp, memo):
    if at in mp:
        return mp[at]
    if at.kind == "var":
        return None
    if at.id in memo:
        return memo[at.id]
    new = tuple(subst(y, mp, memo) if isinstance(y, (Poly, BExpr, tuple)) else y for y in at.args)
    if new == at.args:
        r = None
    else:
        r = rebuild(at, new)
    memo[at.id] = r
    return r


def rebuild(at, args):
    k = at.kind
    if k == "inv":
        return inv(args[0])
    if k == "sqrt":
        return sqrt(args[0])
    if k == "ite":
        return ite(*args)
    if k in ("floor", "fptosi", "log", "udiv", "abs", "narrow"):
        return FN[k](*args)
    if k == "fn" and args[0] in ("round", "ceil", "trunc"):
        return fround(*args)
    return Poly({((atom(k, *args, isint=at.isint, lo=at.lo, hi=at.hi).id, 1),): 1})


def apoly(a):
    return Poly({((a.id, 1),): 1})


def log(p):
    if p.const() == 1:
        return ZERO
    return apoly(atom("log", p))


def floor(p):
    c = p.const()
    if c is not None:
        return K(math.floor(c))
    if p.isint():
        return p
    # pull out integer part
    ip, rest = {}, {}
    for m, c in p.t.items():
        if all(e > 0 and Atom.byid[a].isint for a, e in m) and Fraction(c).denominator == 1:
            ip[m] = c
        else:
            rest[m] = c
    rest = Poly(rest)
    c0 = rest.t.get((), 0)
    if c0 and math.floor(c0):              # integer part of the constant
        ip[()] = ip.get((), 0) + math.floor(c0)
        rest = rest - K(math.floor(c0))
    lo, hi = interval(rest)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return Poly(ip) + K(math.floor(lo))
    return Poly(ip) + apoly(atom("floor", rest, isint=True))


def fround(name, p):
    """ceil, round, trunc"""
    c = p.const()
    if c is not None:
        return K(math.ceil(c) if name == "ceil" else math.trunc(c) if name == "trunc" else
                 (1 if c >= 0 else -1) * math.floor(abs(c) + Fraction(1, 2)))
    if p.isint():
        return p
    if name == "ceil":
        return -floor(-p)
    if name == "trunc":
        return floor(p) if is_nonneg(p) else -floor(-p) if is_nonneg(-p) else apoly(atom("fn", name, p, isint=True))
    # round: nearest integer when the distance to it is known to be less than one half
    up = floor(p + K(Fraction(1, 2)))
    lo, hi = interval(p - up)
    if lo is not None and hi is not None and lo > -Fraction(1, 2) and hi < Fraction(1, 2):
        return up
    return apoly(atom("fn", "round", p, isint=True))


def fptosi(p):
    c = p.const()
    if c is not None:
        return K(math.trunc(c))
    if p.isint():
        return p
    if is_nonneg(p):
        return floor(p)
    return apoly(atom("fptosi", p, isint=True))


RANGE = {"i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1), "i16": (-(1 << 15), (1 << 15) - 1),
         "u16": (0, (1 << 16) - 1), "i8": (-128, 127), "u8": (0, 255)}


def narrow(p, kind):
    """the value p carried by a narrower type: p itself where it provably fits, an opaque value otherwise"""
    c = p.const()
    if kind == "f32":
        if c is not None:
            return K(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0])) if abs(c) < 1e38 else p
        lo, hi = interval(p)
        if p.isint() and lo is not None and hi is not None and -(1 << 24) <= lo and hi <= 1 << 24:
            return p
    else:
        l, h = RANGE[kind]
        if c is not None:
            return K((int(c) - l) % (h - l + 1) + l)
        lo, hi = interval(p)
        if lo is not None and lo >= l and hi is not None and hi <= h:
            return p
    if len(p.t) == 1:
        (m, cf), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = Atom.byid[m[0][0]]
            if at.kind == "ite":
                return ite(at.args[0], narrow(at.args[1].scale(cf), kind), narrow(at.args[2].scale(cf), kind))
            if at.kind == "narrow" and at.args[1] == kind and cf == 1:
                return p
    if kind == "f32":
        return apoly(atom("narrow", p, kind, isint=p.isint()))
    return apoly(atom("narrow", p, kind, isint=True, lo=RANGE[kind][0], hi=RANGE[kind][1]))


def pabs(p):
    c = p.const()
    if c is not None:
        return K(abs(c))
    r = drop_positive(p)
    if r is not p:
        if len(r.t) == len(p.t):
            m = next(iter(p.t))
            d = dict(m)
            for a, e in next(iter(r.t)):
                d[a] = d.get(a, 0) - e
                if not d[a]:
                    del d[a]
            return pabs(r) * Poly({tuple(sorted(d.items())): 1})
    lo, hi = interval(p)
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return -p
    _, lc = leading(p)
    if lc < 0:
        p = -p
    return apoly(atom("abs", p, isint=p.isint(), lo=0))


def poly_divmod_mono(p, d):
    """p = d*q + r for a single-term d (coefficient 1): terms divisible by d go to q"""
    (dm, dc), = d.t.items()
    dd = dict(dm)
    q, r = {}, {}
    for m, c in p.t.items():
        md = dict(m)
        if all(md.get(a, 0) >= e for a, e in dd.items()) and (Fraction(c) / dc).denominator == 1:
            n = tuple(sorted((a, e - dd.get(a, 0)) for a, e in md.items() if e - dd.get(a, 0)))
            q[n] = q.get(n, 0) + norm(Fraction(c) / dc)
        else:
            r[m] = c
    return Poly(q), Poly(r)


def udiv(a, b):
    """floor division of non-negative integers"""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return K(ca // cb)
    if cb == 1:
        return a
    if not a.t:
        return ZERO
    if len(b.t) == 1:
        q, r = poly_divmod_mono(a, b)
        if not r.t:
            return q
        if is_nonneg(r) and lt_known(r, b):
            return q
        if q.t and is_nonneg(r):
            return q + udiv(r, b)
        # (x div m) div n = x div (m n)
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and Atom.byid[m[0][0]].kind == "udiv":
                at = Atom.byid[m[0][0]]
                return udiv(at.args[0], at.args[1] * b)
    else:
        # multi-term divisor: exact multiple?
        q = exact_div(a, b)
        if q is not None:
            return q
        if is_nonneg(a) and lt_known(a, b):
            return ZERO
        # quotient by division with each term of b as pivot, kept when 0 <= a - q b < b is shown
        for piv in sorted(b.t, key=lambda m: -sum(e for _, e in m)):
            if not piv:
                continue
            q, r = pivot_div(a, b, piv)
            for j in (0, 1, -1):
                if is_nonneg(r + b.scale(j)) and lt_known(r + b.scale(j), b):
                    return q - K(j)
    return apoly(atom("udiv", a, b, isint=True, lo=0))


def pivot_div(a, b, piv):
    q, r = ZERO, a
    for _ in range(40):
        for m, c in sorted(r.t.items(), key=_grlex, reverse=True):
            k = mono_quot(m, piv)
            c = Fraction(c) / b.t[piv]
            if k is not None and c.denominator == 1:
                break
        else:
            return q, r
        t = Poly({k: norm(c)})
        q, r = q + t, r - t * b
    return ZERO, a


def _grlex(kv):
    return sum(e for _, e in kv[0]), tuple((-a, e) for a, e in kv[0])


class _Rev:
    """heap key in decreasing monomial order"""
    __slots__ = ("k", "m")

    def __init__(self, m):
        self.m = m
        self.k = _grlex((m,))

    def __lt__(self, o):
        return self.k > o.k


def exact_div(a, b, integral=True):
    """a / b when b divides a exactly, else None (division by leading terms)"""
    q = {}
    r = dict(a.t)
    heap = [_Rev(m) for m in r]
    heapq.heapify(heap)
    lm, lc = max(b.t.items(), key=_grlex)
    for _ in range(200 if integral else 3000):
        while heap and heap[0].m not in r:
            heapq.heappop(heap)
        if not r:
            return Poly(q)
        if not heap:
            return None
        rm = heapq.heappop(heap).m
        rc = r[rm]
        d = dict(rm)
        for x, e in lm:
            if d.get(x, 0) < e:
                return None
            d[x] -= e
            if d[x] == 0:
                del d[x]
        c = Fraction(rc) / lc
        if integral and c.denominator != 1:
            return None
        tm = tuple(sorted(d.items()))
        q[tm] = norm(q.get(tm, 0) + c)
        for m, k in (Poly({tm: norm(c)}) * b).t.items():
            v = r.get(m)
            if v is None:
                r[m] = norm(-k)
                heapq.heappush(heap, _Rev(m))
            else:
                v = norm(v - k)
                if v:
                    r[m] = v
                else:
                    del r[m]
        if rm in r:
            return None
    return None


FN = {"floor": floor, "fptosi": fptosi, "log": log, "udiv": udiv, "abs": pabs, "narrow": narrow}

# ---------------------------------------------------------------- facts
FACTS = []          # list of Poly known >= 0


def atom_bounds(a):
    return a.lo, a.hi


def interval(p):
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        l, h = Fraction(1), Fraction(1)
        for a, e in m:
            al, ah = atom_bounds(Atom.byid[a])
            if e < 0:
                if al is not None and al > 0:
                    al, ah = (Fraction(1) / Fraction(ah) if ah is not None else Fraction(0)), Fraction(1) / Fraction(al)
                    e = -e
                else:
                    l = h = None
                    break
            if e % 2 == 0 and (al is None or al < 0):
                M = None if (al is None or ah is None) else max(abs(al), abs(ah))
                al, ah = 0, M
            for _ in range(e):
                l, h = imul(l, h, al, ah)
                if l is None and h is None:
                    break
        if c < 0:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        else:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def imul(a, b, c, d):
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    if None in (a, b, c, d):
        return None, None
    v = [a * c, a * d, b * c, b * d]
    return min(v), max(v)


def is_nonneg(p, depth=2):
    lo, _ = interval(p)
    if lo is not None and lo >= 0:
        return True
    if depth:
        for f in FACTS:
            # p - k*f >= 0 for a multiplier matching one of p's negative terms
            for m, c in p.t.items():
                if c < 0:
                    fm = [(n, k) for n, k in f.t.items() if k < 0]
                    for n, k in fm:
                        mult = mono_quot(m, n)
                        if mult is None:
                            continue
                        ml, _ = interval(Poly({mult: 1}))
                        if ml is None or ml < 0:
                            continue
                        q = p - f * Poly({mult: norm(Fraction(c) / k)})
                        if is_nonneg(q, depth - 1):
                            return True
    return False


def mono_quot(m, n):
    d = dict(m)
    for a, e in n:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def lt_known(a, b):
    return is_nonneg(b - a - ONE)


# ---------------------------------------------------------------- booleans
class BExpr:
    __slots__ = ("kind", "args", "depth", "_h")
    table = {}

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return bfmt(self)


def _b(kind, *args):
    key = (kind,) + args
    x = BExpr.table.get(key)
    if x is None:
        x = BExpr()
        x.kind = kind
        x.args = args
        x.depth = max((_depth(a) for a in args), default=0) + 1
        BExpr.table[key] = x
    return x


TRUE = _b("true")
FALSE = _b("false")


def batom(*args):
    return _b("atom", *args)


def bconst(v):
    return TRUE if v else FALSE


def drop_positive(p):
    """p divided by factors common to all its terms that are positive: the sign is unchanged"""
    if not CANCEL[0] or not p.t:
        return p
    g = [(x, e) for x, e in mono_content(p) if pos_atom(Atom.byid[x], e)]
    if not g:
        return p
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        for a, e in g:
            f = d.get(a, 0) - e
            if f:
                d[a] = f
            else:
                d.pop(a, None)
        out[tuple(sorted(d.items()))] = c
    return Poly(out)


def pos_atom(a, e):
    """factor that is positive wherever the value is defined (roots that are also divided by, positive inputs)"""
    if a.lo is not None and a.lo > 0:
        return True
    if a.kind == "sqrt":
        return True
    return a.kind == "inv" and (("sqrt", a.args[0]) in SQRT_OF or e % 2 == 0)


TINYK = K(Fraction(1, 10**30))
GENERIC = [None]      # callable(rel, p) -> bool | None: truth of p rel 0 on the inputs under consideration


def bcmp(rel, p):
    """p rel 0, rel in lt le eq"""
    p = cancel(p)
    c = p.const()
    if c is not None:
        return bconst(c < 0 if rel == "lt" else c <= 0 if rel == "le" else c == 0)
    p = drop_positive(p)
    if len(p.t) <= 2:
        # comparison of a flag (ite between constants)
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            at = Atom.byid[ms[0][0][0]]
            if at.kind == "ite":
                x, y = at.args[1].const(), at.args[2].const()
                if x is not None and y is not None:
                    k, c0 = p.t[ms[0]], p.t.get((), 0)
                    return bite(at.args[0], bcmp(rel, K(norm(k * x + c0))), bcmp(rel, K(norm(k * y + c0))))
    integer = p.isint()
    if integer and rel == "lt":
        rel, p = "le", p + ONE
    lo, hi = interval(p)
    if rel == "lt":
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
        if FACTS:
            if is_nonneg(p):
                return FALSE
            if is_nonneg(-p - TINYK):
                return TRUE
    elif rel == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
        if FACTS:
            if is_nonneg(-p):
                return TRUE
            if is_nonneg(p - (ONE if integer else TINYK)):
                return FALSE
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
        if FACTS and integer and (is_nonneg(p - ONE) or is_nonneg(-p - ONE)):
            return FALSE
    if GENERIC[0] is not None and not integer:
        r = GENERIC[0](rel, p)
        if r is not None:
            return bconst(r)
    _, lc = leading(p)
    neg = lc < 0
    k = abs(Fraction(lc))
    if integer:
        # keep integer coefficients, divide by gcd only for eq
        q = -p if neg else p
        if rel == "eq":
            return _b("eq", q)
        if neg:               # p<=0  <=>  q>=0 <=> not(q<=-1) <=> not(q+1<=0)
            return bnot(_b("le", q + ONE)) if (q + ONE).const() is None else bnot(bcmp("le", q + ONE))
        return _b("le", q)
    q = p.scale(norm(1 / k))
    if neg:
        q = -q
    if rel == "eq":
        return _b("eq", q)
    if neg:
        return bnot(_b("le" if rel == "lt" else "lt", q))
    return _b(rel, q)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.kind == "not":
        return x.args[0]
    if x.kind == "and":
        return bor(*[bnot(a) for a in x.args])
    if x.kind == "or":
        return band(*[bnot(a) for a in x.args])
    return _b("not", x)


def band(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.kind == "and":
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if bnot(x) in s:
            return FALSE
    # absorption: x & (x | y) = x ; unit propagation into disjunctions
    ys = []
    changed = False
    for x in s:
        if x.kind == "or":
            if any(a in s for a in x.args):
                changed = True
                continue
            na = [a for a in x.args if bnot(a) not in s]
            if len(na) != len(x.args):
                changed = True
                ys.append(bor(*na))
                continue
        ys.append(x)
    if changed:
        return band(*ys)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return _b("and", *sorted(ys, key=lambda b: id(b)))


def bor(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.kind == "or":
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if bnot(x) in s:
            return TRUE
    ys = []
    changed = False
    for x in s:
        if x.kind == "and":
            if any(a in s for a in x.args):
                changed = True
                continue
            na = [a for a in x.args if bnot(a) not in s]
            if len(na) != len(x.args):
                changed = True
                ys.append(band(*na))
                continue
        ys.append(x)
    if changed:
        return bor(*ys)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    return _b("or", *sorted(ys, key=lambda b: id(b)))


def multiple(d, y):
    """d is a constant multiple of y"""
    if len(y.t) != len(d.t) or not y.t:
        return False
    m = next(iter(y.t))
    return m in d.t and d == y.scale(norm(Fraction(d.t[m]) / y.t[m]))


def tie(c, a, b):
    """min/max of two values whose order is known: the side that is always the answer, or None"""
    x, d = c.args[0], a - b
    if len(d.t) > len(x.t) + 1:
        return None
    if multiple(d, x):               # the sides agree where x = 0
        if is_nonneg(x):             # c holds at most where x = 0
            return b
        if is_nonneg(-x):            # c fails at most where x = 0
            return a
    if c.kind == "le" and x.isint() and multiple(d, x - ONE) and is_nonneg(ONE - x):
        return a                     # c fails only where x = 1, where the sides agree
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    if c.kind in ("le", "lt"):
        r = tie(c, a, b)
        if r is not None:
            return r
    lo = hi = None
    la, ha = interval(a)
    lb, hb = interval(b)
    if la is not None and lb is not None:
        lo = min(la, lb)
    if ha is not None and hb is not None:
        hi = max(ha, hb)
    return apoly(atom("ite", c, a, b, isint=a.isint() and b.isint(), lo=lo, hi=hi))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


# conditions mentioned by ite atoms of a value
def conditions(x, out=None, seen=None):
    """atomic conditions mentioned by x, outermost first (shared subterms visited once)"""
    if out is None:
        out = {}
    if seen is None:
        seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            conditions(Atom.byid[a], out, seen)
    elif isinstance(x, Atom):
        if x.id in seen:
            return out
        seen.add(x.id)
        if x.kind == "ite":
            for l in leaves(x.args[0]):
                out[l] = 1
        for y in x.args:
            conditions(y, out, seen)
    elif isinstance(x, BExpr):
        if x in seen:
            return out
        seen.add(x)
        for l in leaves(x):
            out[l] = 1
            for y in l.args:
                conditions(y, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            conditions(y, out, seen)
    return out


def leaves(b):
    if b.kind in ("true", "false"):
        return []
    if b.kind in ("not", "and", "or"):
        r = {}
        for a in b.args:
            for l in leaves(a):
                r[l] = 1
        return list(r)
    return [b]


def assume(x, env, memo=None):
    """rewrite a value/condition under truth assignment env {leaf BExpr: bool}"""
    if memo is None:
        memo = {}
    if isinstance(x, BExpr):
        if x in env:
            return bconst(env[x])
        if x.kind in ("true", "false"):
            return x
        if x in memo:
            return memo[x]
        if x.kind == "not":
            r = bnot(assume(x.args[0], env, memo))
        elif x.kind == "and":
            r = band(*[assume(a, env, memo) for a in x.args])
        elif x.kind == "or":
            r = bor(*[assume(a, env, memo) for a in x.args])
        elif x.kind in ("lt", "le", "eq"):
            q = assume(x.args[0], env, memo)
            r = x if q == x.args[0] else bcmp(x.kind, q)
            if r is not x and r in env:
                r = bconst(env[r])
            elif r.kind == "not" and r.args[0] in env:
                r = bconst(not env[r.args[0]])
        else:
            r = x
        memo[x] = r
        return r
    if isinstance(x, Poly):
        mp = {}
        for a in x.atoms():
            at = Atom.byid[a]
            s = assume_atom(at, env, memo)
            if s is not None:
                mp[at] = s
        if not mp:
            return x
        r = ZERO
        for m, c in x.t.items():
            t = K(c)
            for a, e in m:
                at = Atom.byid[a]
                t = t * ((mp[at] ** e) if at in mp else Poly({((a, e),): 1}))
            r = r + t
        return r
    if isinstance(x, tuple):
        return tuple(assume(y, env, memo) if isinstance(y, (Poly, BExpr, tuple)) else y for y in x)
    return x


def assume_atom(at, env, memo):
    if at.kind == "var":
        return None
    if at in memo:
        return memo[at]
    if at.kind == "ite":
        c = assume(at.args[0], env, memo)
        if c is TRUE:
            r = assume(at.args[1], env, memo)
        elif c is FALSE:
            r = assume(at.args[2], env, memo)
        else:
            r = ite(c, assume(at.args[1], env, memo), assume(at.args[2], env, memo))
            if r == apoly(at):
                r = None
    else:
        new = tuple(assume(y, env, memo) if isinstance(y, (Poly, BExpr, tuple)) else y for y in at.args)
        r = None if new == at.args else rebuild(at, new)
    memo[at] = r
    return r


# ---------------------------------------------------------------- printing
_FD = [0]


def fmt_atom(a):
    k = a.kind
    if k == "var":
        return str(a.args[0])
    if _FD[0] > 5:
        return k + "(...)"
    _FD[0] += 1
    try:
        return f"{k}({', '.join(fmtx(x) for x in a.args)})"
    finally:
        _FD[0] -= 1


def fmtx(x):
    if isinstance(x, Poly):
        return fmt(x, 6)
    if isinstance(x, BExpr):
        return bfmt(x)
    return str(x)


def fmt_num(c):
    f = Fraction(c)
    if f.denominator == 1:
        return str(f.numerator)
    if f.denominator < 10**6:
        return f"{f.numerator}/{f.denominator}"
    return repr(float(f))


def fmt(p, maxterms=12):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0]))):
        if i >= maxterms:
            out.append(f"... ({len(p.t)} terms)")
            break
        s = "*".join(fmt_atom(Atom.byid[a]) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s:
            out.append(fmt_num(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(fmt_num(c) + "*" + s)
    return " + ".join(out).replace("+ -", "- ")


def bfmt(b):
    if b.kind in ("true", "false"):
        return b.kind
    if _FD[0] > 5:
        return "..."
    _FD[0] += 1
    try:
        return _bfmt(b)
    finally:
        _FD[0] -= 1


def _bfmt(b):
    if b.kind in ("lt", "le", "eq"):
        return f"[{fmt(b.args[0], 6)} {dict(lt='<', le='<=', eq='==')[b.kind]} 0]"
    if b.kind == "not":
        return "!" + bfmt(b.args[0])
    if b.kind in ("and", "or"):
        return "(" + (" & " if b.kind == "and" else " | ").join(bfmt(a) for a in b.args) + ")"
    return "cond" + str(b.args)
