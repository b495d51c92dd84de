"""Polyhedral entailment: conjunctions of linear inequalities over the monomials of the value
domain, emptiness by Fourier-Motzkin elimination; validity of boolean formulas by splitting on
their sign conditions and discarding the empty cells.  Monomials are treated as independent
unknowns, so "empty" and "valid" are sound answers; a failure to show them is not a refutation."""
from fractions import Fraction

from . import poly as P
from .poly import Atom


class Blowup(Exception):
    pass


def _row(p):
    d = {}
    k = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            k = Fraction(c)
        else:
            d[m] = Fraction(c)
    return d, k


def bounds_rows(rows):
    """interval facts of the atoms occurring linearly, sign facts of even/non-negative monomials"""
    ms = set()
    for d, _, _ in rows:
        ms.update(d)
    out = []
    for m in ms:
        lo, hi = P.interval(P.Poly({m: 1}))
        if lo is not None:
            out.append(({m: Fraction(-1)}, Fraction(lo), False))
        if hi is not None:
            out.append(({m: Fraction(1)}, -Fraction(hi), False))
    return out


def empty(cons, limit=4000):
    """cons: list of (Poly, rel) meaning poly rel 0 with rel in lt le eq; True if no solution"""
    rows = []                       # (coeffs, const, strict): sum + const <= 0 (or < 0)
    for p, rel in cons:
        d, k = _row(p)
        rows.append((d, k, rel == "lt"))
        if rel == "eq":
            rows.append(({m: -c for m, c in d.items()}, -k, False))
    for f in P.FACTS:
        d, k = _row(-f)
        rows.append((d, k, False))
    rows += bounds_rows(rows)
    while True:
        clean = {}
        for d, k, s in rows:
            d = {m: c for m, c in d.items() if c}
            if not d:
                if k > 0 or (s and k == 0):
                    return True
                continue
            f = max(abs(c) for c in d.values())
            key = tuple(sorted((m, c / f) for m, c in d.items()))
            k = k / f
            o = clean.get(key)
            if o is None or k > o[0] or (k == o[0] and s and not o[1]):
                clean[key] = (k, s)
        rows = [(dict(key), k, s) for key, (k, s) in clean.items()]
        if not rows:
            return False
        cnt = {}
        for d, _, _ in rows:
            for m, c in d.items():
                a, b = cnt.get(m, (0, 0))
                cnt[m] = (a + (c > 0), b + (c < 0))
        m = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[0]]
        if len(rest) + len(pos) * len(neg) > limit:
            raise Blowup
        for d1, k1, s1 in pos:
            for d2, k2, s2 in neg:
                a, b = -d2[m], d1[m]
                d = {}
                for x, c in d1.items():
                    d[x] = c * a
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * b
                d.pop(m, None)
                rest.append((d, k1 * a + k2 * b, s1 or s2))
        rows = rest


def lit(leaf, v):
    """constraints of a leaf condition being v; list of alternatives (disequalities split)"""
    k = leaf.kind
    if k not in ("lt", "le", "eq"):
        return [[]]
    p = leaf.args[0]
    if v:
        return [[(p, k)]]
    if k == "lt":
        return [[(-p, "le")]]
    if k == "le":
        if p.isint():
            return [[(P.ONE - p, "le")]]
        return [[(-p, "lt")]]
    return [[(p, "lt")], [(-p, "lt")]]


def poly_sqrt(p):
    """q with q*q == p, or None"""
    if not p.t:
        return P.ZERO
    import math
    q = P.ZERO
    r = p
    lead = None
    for _ in range(60):
        if not r.t:
            return q
        m, c = max(r.t.items(), key=P._grlex)
        if lead is None:
            f = Fraction(c)
            if f <= 0 or any(e % 2 or e < 0 for _, e in m):
                return None
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n != f.numerator or d * d != f.denominator:
                return None
            lead = P.Poly({tuple((a, e // 2) for a, e in m): P.norm(Fraction(n, d))})
            t = lead
        else:
            (lm, lc), = lead.t.items()
            mm = P.mono_quot(m, lm)
            if mm is None:
                return None
            t = P.Poly({mm: P.norm(Fraction(c) / (2 * Fraction(lc)))})
        r = r - (q * t).scale(2) - t * t
        q = q + t
    return None


_fac = {}


def factor2(p):
    """(a, f1, f2): p == a*f1*f2 with f1, f2 of degree one in some atom, or None"""
    if p in _fac:
        return _fac[p]
    res = None
    if len(p.t) <= 60 and max((sum(abs(e) for _, e in m) for m in p.t), default=0) >= 2:
        for x in p.atoms():
            parts = {}
            for m, c in p.t.items():
                e = dict(m).get(x, 0)
                parts.setdefault(e, {})[tuple(t for t in m if t[0] != x)] = c
            if min(parts) < 0 or max(parts) != 2:
                continue
            a = P.Poly(parts[2]).const()
            if a is None:
                continue
            b, c = P.Poly(parts.get(1, {})), P.Poly(parts.get(0, {}))
            d = poly_sqrt(b * b - c.scale(4 * Fraction(a)))
            if d is None:
                continue
            X = P.Poly({((x, 1),): 1})
            k = Fraction(1, 2) / Fraction(a)
            res = (a, X + (b - d).scale(P.norm(k)), X + (b + d).scale(P.norm(k)))
            break
    _fac[p] = res
    return res


def linearise(f, memo=None):
    """replace sign conditions of products of two factors by sign conditions of the factors"""
    if memo is None:
        memo = {}
    if f in memo:
        return memo[f]
    k = f.kind
    r = f
    if k == "not":
        r = P.bnot(linearise(f.args[0], memo))
    elif k == "and":
        r = P.band(*[linearise(a, memo) for a in f.args])
    elif k == "or":
        r = P.bor(*[linearise(a, memo) for a in f.args])
    elif k in ("lt", "le", "eq"):
        t = factor2(f.args[0])
        if t:
            a, f1, f2 = t
            f1, f2 = (f1 if a > 0 else -f1), f2
            if k == "eq":
                r = P.bor(P.bcmp("eq", f1), P.bcmp("eq", f2))
            else:
                r = P.bor(P.band(P.bcmp(k, f1), P.bcmp(k, -f2)), P.band(P.bcmp(k, -f1), P.bcmp(k, f2)))
    memo[f] = r
    return r


def kinds(x, kind, seen, out):
    """atoms of a kind anywhere in x"""
    if isinstance(x, P.Poly):
        for i in x.atoms():
            kinds(P.Atom.byid[i], kind, seen, out)
    elif isinstance(x, tuple):
        for y in x:
            kinds(y, kind, seen, out)
    elif isinstance(x, (P.Atom, P.BExpr)):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, P.Atom) and x.kind == kind:
            out.append(x)
        for y in x.args:
            kinds(y, kind, seen, out)


def unabs(g):
    """absolute values as gated values"""
    for _ in range(4):
        at = []
        kinds(g, "abs", set(), at)
        if not at:
            break
        g = P.subst(g, {a: P.ite(P.bcmp("lt", a.args[0]), -a.args[0], a.args[0]) for a in at})
    return g


def valid(f, hyps=(), cons=(), budget=None):
    """True if formula f holds wherever the hypotheses (BExpr list) do"""
    if budget is None:
        budget = [6000]
    g = linearise(unabs(P.band(P.bnot(f), *hyps)))
    return unsat(g, list(cons), budget)


def unsat(g, cons, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise Blowup
    if g is P.FALSE:
        return True
    if g is P.TRUE:
        return empty(cons)
    # unit conditions first, then the innermost ones (those gating values compared by others)
    g = linearise(g)
    if g.kind in ("true", "false"):
        return unsat(g, cons, budget)
    if g.kind in ("and", "not", "lt", "le", "eq", "atom"):
        for a in (g.args if g.kind == "and" else (g,)):
            b, v = (a.args[0], False) if a.kind == "not" else (a, True)
            if b.kind in ("lt", "le", "eq", "atom") and not gated(b):
                return _branch(g, b, v, cons, budget)
    l = min(P.conditions(g), key=lambda b: b.depth)
    return _branch(g, l, True, cons, budget) and _branch(g, l, False, cons, budget)


def gated(b):
    return any(P.conditions(x) for x in b.args)


def _branch(g, l, v, cons, budget):
    h = P.assume(g, {l: v})
    for alt in lit(l, v):
        c = cons + alt
        if alt and empty(c):
            continue
        if not unsat(h, c, budget):
            return False
    return True


def equivalent(a, b, hyps=()):
    try:
        return valid(P.bor(P.bnot(a), b), hyps) and valid(P.bor(a, P.bnot(b)), hyps)
    except (Blowup, P.TooBig):
        return False
