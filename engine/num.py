"""Evaluation of abstract values at a point of their input variables.  It never executes the
program: it is only used to exhibit, for two abstract values that the algebra could not show
equal, a point of the input space that separates them (the counterexample printed with a
violation).  Opaque atoms are evaluated as uninterpreted functions of their arguments."""
import hashlib
import math
import random
import time
from fractions import Fraction

from . import poly as P
from .poly import Atom, BExpr, Poly


class Undefined(Exception):
    pass


HALF = Fraction(1, 2)
EXACT = [False]      # rational evaluation (floor and comparisons of values that are equal in exact arithmetic)


class Point:
    forced = {}          # conditions taken to hold or not (equalities at an approximate root)
    precise = False      # rational evaluation with roots and logarithms to sixty digits

    def __init__(self, seed=0, env=None, ranges=None, exact=None):
        self.seed = seed
        self.exact = EXACT[0] if exact is None else exact
        self.env = dict(env or {})          # var name -> value
        self.ranges = ranges or (lambda name: None)
        self.memo = {}
        self.used = {}

    def variable(self, a):
        n = a.args[0]
        if n in self.env:
            v = self.env[n]
        else:
            r = random.Random(f"{self.seed}/{n}")
            rg = self.ranges(n)
            lo, hi = (rg if rg else (None, None))
            if lo is None:
                lo = a.lo
            if hi is None:
                hi = a.hi
            if a.isint:
                lo2 = int(lo) if lo is not None else (-6 if hi is None else int(hi) - 12)
                hi2 = int(hi) if hi is not None and hi < lo2 + 1000 else lo2 + 12
                v = r.randint(lo2, hi2)
            else:
                lo2 = float(lo) if lo is not None else (-2.0 if hi is None else float(hi) - 4)
                hi2 = float(hi) if hi is not None else lo2 + 4.0
                v = r.uniform(lo2, hi2)
                if self.exact:
                    v = Fraction(round(v * 4096), 4096)
                    if lo is not None and v < lo or hi is not None and v > hi:
                        v = (Fraction(lo) + (Fraction(hi) if hi is not None else Fraction(lo) + 1)) / 2
            self.env[n] = v
        self.used[n] = v
        return v

    def ev(self, x):
        if isinstance(x, Poly):
            k = x
            if k in self.memo:
                return self.memo[k]
            s = 0
            for m, c in x.t.items():
                t = c if self.exact or isinstance(c, int) else float(c)
                for a, e in m:
                    v = self.at(Atom.byid[a])
                    if e < 0 and v == 0:
                        raise Undefined
                    t = t * (Fraction(v) if e < 0 and isinstance(v, int) and self.exact else v) ** e
                s = s + t
            self.memo[k] = s
            return s
        if isinstance(x, BExpr):
            return self.b(x)
        if isinstance(x, tuple):
            return tuple(self.ev(y) if isinstance(y, (Poly, BExpr, tuple)) else y for y in x)
        if isinstance(x, Atom):
            return self.at(x)
        return x

    def b(self, x):
        k = x.kind
        if x in self.forced:
            return self.forced[x]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            return not self.b(x.args[0])
        if k == "and":
            return all(self.b(a) for a in x.args)
        if k == "or":
            return any(self.b(a) for a in x.args)
        if k in ("lt", "le", "eq"):
            v = self.ev(x.args[0])
            return v < 0 if k == "lt" else v <= 0 if k == "le" else v == 0
        return self.h(("b",) + tuple(self.ev(y) for y in x.args), True) & 1 == 1

    def h(self, key, integer=False):
        d = hashlib.sha1(repr(key).encode()).digest()
        n = int.from_bytes(d[:6], "big")
        return n if integer else n / float(1 << 48) * 2 + 0.3

    def at(self, a):
        if a.kind == "var":
            return self.variable(a)
        if a in self.memo:
            return self.memo[a]
        r = self._at(a)
        self.memo[a] = r
        return r

    def _at(self, a):
        k = a.kind
        if k == "ite":
            return self.ev(a.args[1]) if self.b(a.args[0]) else self.ev(a.args[2])
        if k == "guarded":
            return self.ev(a.args[1])
        v = [self.ev(y) for y in a.args]
        try:
            if k == "inv":
                if abs(v[0]) < 1e-9:
                    raise Undefined
                if self.precise:
                    return trim(Fraction(1) / v[0])
                return Fraction(1) / v[0] if self.exact else 1 / v[0]
            if k == "sqrt":
                if v[0] < 0:
                    if v[0] > -1e-9:
                        return 0.0
                    raise Undefined
                if self.precise:
                    q = Fraction(v[0])
                    return Fraction(math.isqrt((q.numerator << 420) // q.denominator), 1 << 210)
                return math.sqrt(v[0])
            if k == "log":
                if v[0] <= 0:
                    raise Undefined
                return Fraction(math.log(v[0])) if self.precise else math.log(v[0])
            if k == "floor":
                return math.floor(v[0])
            if k == "fptosi":
                return math.trunc(v[0])
            if k == "abs":
                return abs(v[0])
            if k == "narrow":
                # some value for which the conversion loses information
                if v[1] == "f32":
                    return v[0] + (v[0] / 1024 if not self.exact else Fraction(v[0]) / 1024)
                return v[0] - (1 << int(v[1][1:]))
            if k == "udiv":
                return int(v[0]) // int(v[1])
            if k == "sdiv":
                q = abs(int(v[0])) // abs(int(v[1]))
                return q if (v[0] < 0) == (v[1] < 0) else -q
            if k == "fn":
                f = {"ceil": math.ceil, "trunc": math.trunc, "sin": math.sin, "cos": math.cos,
                     "exp": math.exp, "pow": math.pow}.get(v[0])
                if f:
                    r = f(*v[1:])
                    return Fraction(r) if self.precise else r
                if v[0] in ("round", "rint", "nearbyint"):
                    return math.floor(v[1] + HALF) if v[1] >= 0 else -math.floor(HALF - v[1])
        except (ZeroDivisionError, ValueError, OverflowError):
            raise Undefined
        if self.precise:
            v = [float(z) if isinstance(z, Fraction) and z.denominator != 1 else z for z in v]
        if a.isint or not any(isinstance(z, float) for z in v):
            key = (k,) + tuple(round(z, 9) if isinstance(z, float) else z for z in v)
            return self.h(key, True) % 97 if a.isint else self.h(key)
        # an uninterpreted function of real arguments: some smooth function (nearby arguments, nearby values)
        tag = (k,) + tuple(z for z in v if not isinstance(z, float))
        t = 0.0
        for i, z in enumerate(v):
            if isinstance(z, float):
                t += math.sin(self.h((tag, i, "w")) * z + self.h((tag, i, "p"))) * self.h((tag, i, "a"))
        r = 0.7 * t + self.h((tag, "c"))
        return Fraction(r) if self.precise else r


def trim(q):
    """the same number to 420 bits"""
    return q if q.denominator.bit_length() < 840 else Fraction((q.numerator << 420) // q.denominator, 1 << 420)


BUDGET = [40.0]      # seconds of guided search left in this process
TINY = (Fraction(1, 1 << 40), Fraction(1, 1 << 30), Fraction(1, 1 << 20), Fraction(1, 1 << 10))


def guided(a, b, seed=1, ranges=None, assume=None, env=None, tol=1e-10):
    """a point where a and b differ, looked for on and next to the boundaries of the conditions that they mention"""
    t0 = time.time()
    stop = t0 + min(6.0, BUDGET[0])
    try:
        return _guided(a, b, seed, ranges, assume, env, tol, stop)
    finally:
        BUDGET[0] -= time.time() - t0


def _guided(a, b, seed, ranges, assume, env, tol, stop):
    conds = [c for c in dict(P.conditions((a, b))) if c.kind in ("lt", "le", "eq")][:60]
    boolean = isinstance(a, BExpr)

    def point(e, i):
        pt = Point((seed, "g", i), env=e, ranges=ranges, exact=True)
        pt.precise = True
        return pt

    def inside(v, t):
        lo, hi = (ranges(v.args[0]) if ranges else None) or (None, None)
        lo, hi = v.lo if lo is None else lo, v.hi if hi is None else hi
        return (lo is None or t >= lo) and (hi is None or t <= hi)

    def roots(c, e, i, frozen=()):
        """environments in which the condition is at its boundary"""
        for v in sorted(P.support(c), key=lambda v: v.args[0])[:8]:
            n = v.args[0]
            if n in frozen or time.time() > stop:
                continue

            def f(t):
                p = point({**e, n: t}, i)
                return p.ev(c.args[0])
            try:
                f0, f1 = f(Fraction(0)), f(Fraction(1))
                t = None
                if f0 != f1 and f(Fraction(f0) / (f0 - f1)) == 0:
                    t = Fraction(f0) / (f0 - f1)
                else:
                    grid = [Fraction(k, 4) + Fraction(1, 97) for k in range(-16, 17)]
                    vals = [f(g) for g in grid]
                    for l, h, x, y in zip(grid, grid[1:], vals, vals[1:]):
                        if (x < 0) != (y < 0):
                            for _ in range(48):
                                m = (l + h) / 2
                                if (f(m) < 0) == (x < 0):
                                    l = m
                                else:
                                    h = m
                            t = l
                            break
                    fm = f(Fraction(-1))
                    q = (Fraction(f1) + fm) / 2 - f0              # a thin interval around the vertex of a parabola
                    if t is None and q != 0:
                        top = -(Fraction(f1) - fm) / (4 * q)
                        fv = f(top)
                        if abs(fv) < abs(q) / 1000:
                            w = Fraction(math.isqrt(int((abs(fv) / abs(q)) * (1 << 400))), 1 << 200)
                            for k in (0, Fraction(1, 2), Fraction(9, 10), -Fraction(1, 2)):
                                yield v, top + k * w, True
                if t is None:
                    continue
            except (Undefined, OverflowError, ZeroDivisionError, KeyError, TypeError):
                continue
            if v.isint:
                t = Fraction(math.floor(t))
            yield v, t, False

    def test(e, i, forced=None):
        if time.time() > stop:
            return None
        pt = point(e, i)
        pt.forced = forced or {}
        try:
            if assume is not None and not pt.b(assume) or any(pt.ev(q) < 0 for q in P.FACTS):
                return None
            x, y = pt.ev(a), pt.ev(b)
        except (Undefined, OverflowError, ZeroDivisionError, KeyError, TypeError):
            return None
        if isinstance(x, bool):
            return (dict(pt.used), x, y) if x != y else None
        if abs(x - y) > tol * max(1, abs(x), abs(y)):
            return {k: float(v) for k, v in pt.used.items()}, float(x), float(y)
        return None

    for i in range(3):
        base = env(i) if callable(env) else dict(env or {})
        fixed = frozenset(base)
        for c in conds:
            if time.time() > stop:
                return None
            start = point(base, i)
            try:
                for v in sorted(P.support((a, b)), key=lambda v: v.args[0]):
                    start.variable(v)
            except (Undefined, TypeError):
                continue
            e0 = dict(start.env)
            for v, t, thin in roots(c, e0, i, fixed):
                n = v.args[0]
                steps = [Fraction(s) for s in (-1, 0, 1)] if v.isint else [x for d in TINY for x in (d, -d)]
                if not boolean and (c.kind == "eq" or thin):
                    steps = [Fraction(0)] + steps
                for s in steps:
                    if inside(v, t + s):
                        r = test({**e0, n: t + s}, i, {c: True} if c.kind == "eq" and not (s or boolean or v.isint or thin) else None)
                        if r:
                            return r
                if c.kind != "eq" or boolean:
                    continue
                e1 = {**e0, n: t}
                for c2 in conds:                      # two equalities at once
                    if c2 is c or c2.kind != "eq":
                        continue
                    for v2, t2, _ in roots(c2, e1, i, fixed | {n}):
                        if inside(v2, t2) and inside(v, t):
                            r = test({**e1, v2.args[0]: t2}, i)
                            if r:
                                return r
    return None


def separate(a, b, n=24, seed=1, ranges=None, rel=1e-7, assume=None, env=None):
    """a point where a and b differ, or None.  a, b: Poly or BExpr"""
    for i in range(n):
        pt = Point((seed, i), ranges=ranges, env=env(i) if callable(env) else env)
        try:
            if assume is not None and not pt.b(assume):
                continue
            x, y = pt.ev(a), pt.ev(b)
        except (Undefined, OverflowError):
            continue
        if isinstance(x, bool):
            if x != y:
                return dict(pt.used), x, y
        elif abs(x - y) > rel * max(1.0, abs(x), abs(y)):
            return dict(pt.used), x, y
    return None
