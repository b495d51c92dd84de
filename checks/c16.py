"""C16: the hash grid never misses an element."""
import itertools
import math

from engine import absint as A, build, num, poly as P
from checks.c14 import arr, mixed
from checks import c15

ELEMS = {"Segment<_1D,Linear>": (1, 2), "Segment<_1D,Quadratic>": (1, 3), "Triangle<_2D,Linear>": (2, 3), "Quad<_2D,Linear>": (2, 4), "Tetrahedron<Linear>": (3, 4),
         "Hexahedron<Linear>": (3, 8), "Quad<_2D,Quadratic>": (2, 8), "Triangle<_2D,Quadratic>": (2, 6), "Tetrahedron<Quadratic>": (3, 10), "Hexahedron<Quadratic>": (3, 20)}

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#define MODEL_CAP 8
#include <models.hpp>
#include <Caribou/Topology/HashGrid.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
template <class E> E element(const double * x) { typename E::template Matrix<E::NumberOfNodesAtCompileTime, E::Dimension> m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = *x++; return E(m); }
template <class G> typename G::WorldCoordinates wc(const double * c) { typename G::WorldCoordinates r; for (int i = 0; i < (int) G::Dimension; ++i) r[i] = c[i]; return r; }
'''


def source():
    s = SRC
    for i, t in enumerate(ELEMS):
        s += f'using E{i} = {t};\n'
        s += f'extern "C" void add{i}(const double * h, const double * x, long long id) {{ HashGrid<E{i}> g(*h); g.add(element<E{i}>(x), id); }}\n'
        s += f'extern "C" void addn{i}(const double * h, const double * x, long long id) {{ HashGrid<E{i}> g(*h, 7); g.add(element<E{i}>(x), id); }}\n'
        s += f'extern "C" void get{i}(const double * h, const double * p) {{ const HashGrid<E{i}> g(*h); const auto r = g.get(wc<HashGrid<E{i}>>(p)); op_size(&r); }}\n'
    return s


def insert(it, st, args, I, name):
    k = [it.num(a) for a in args[1:4]]
    st.events = st.events + ((P.TRUE, "push", mixed(k, [P.var("N", isint=True)] * 3) + P.var("N", isint=True) ** 4 * it.num(args[4]), it.loc(I)),)


def find(it, st, args, I, name):
    it.looked = getattr(it, "looked", 0) + 1
    f = P.var(f"found{it.looked}", isint=True, lo=0, hi=1)
    st.events = st.events + ((P.TRUE, "find", (it.looked, [it.num(a) for a in args[1:4]]), it.loc(I)),)
    return P.bcmp("eq", f - P.ONE)


def value(it, st, args, I, name):
    return P.var(f"bucket{it.looked}[{it.num(args[1]).const()}]", isint=True, lo=0)


def probe(it, st, args, I, name):
    return P.var(f"probe[{it.num(args[0]).const()}]", isint=True)


def keys(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "keys", (args[1], args[2]), it.loc(I)),)


HOOKS = {**c15.HOOKS, "op_insert": insert, "op_find": find, "op_value": value, "op_probe": probe, "op_keys": keys}


def run(chk):
    P.CANCEL[0] = True
    bc = build.compile_source(source(), "c16", extra=("-fno-exceptions",))
    chk.module(bc)
    jobs = []
    for i, (t, (d, nn)) in enumerate(ELEMS.items()):
        jobs += [lambda i=i, t=t, d=d, nn=nn, f=f: add(chk, bc, i, t, d, nn, f) for f in ("add", "addn")]
        if nn <= 8 and not (nn == 8 and d == 2):
            jobs += get(chk, bc, i, t, d)
    chk.parallel(jobs)


def leaves(p, sign, depth=0):
    """the values a nested minimum (sign 1) or maximum (sign -1) runs over, None when p is not one"""
    a = single(p)
    if a is None or a.kind != "ite":
        return [p]
    c, x, y = a.args
    if c.kind not in ("le", "lt"):
        return None
    r = c.args[0].scale(sign)
    for k in (1, -1):
        if P_multiple(r, (x - y).scale(k)):
            if k < 0:
                return None
            l, m = leaves(x, sign), leaves(y, sign)
            return None if l is None or m is None else l + m
    return None


def P_multiple(r, d):
    """r is a positive multiple of d (comparison of the two branches)"""
    if not d.t or len(r.t) != len(d.t):
        return False
    m = next(iter(d.t))
    if m not in r.t:
        return False
    k = P.Fraction(r.t[m]) / d.t[m]
    return k > 0 and r == d.scale(P.norm(k))


def single(p):
    """the atom p consists of"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return P.Atom.byid[m[0][0]]
    return None


def walk(x, seen, out, kind="floor"):
    """floor atoms in a value, condition or event"""
    if isinstance(x, P.Poly):
        for a in x.atoms():
            walk(P.Atom.byid[a], seen, out, kind)
    elif isinstance(x, P.Atom):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.kind == kind:
            out.append(x)
        for y in x.args:
            walk(y, seen, out, kind)
    elif isinstance(x, P.BExpr):
        for y in x.args:
            walk(y, seen, out, kind)
    elif isinstance(x, (tuple, list)):
        for y in x:
            walk(y, seen, out, kind)
    elif isinstance(x, dict):
        for y in x.values():
            walk(y, seen, out, kind)


def rewrite(x, mp, memo):
    if isinstance(x, (P.Poly, P.BExpr)):
        return P.subst(x, mp, memo)
    if isinstance(x, (tuple, list)):
        return type(x)(rewrite(y, mp, memo) for y in x)
    if isinstance(x, dict):
        return {k: rewrite(v, mp, memo) for k, v in x.items()}
    return x


def add(chk, bc, i, t, d, nn, fn):
    subj = f"HashGrid<{t}>::add"
    rule = f"the element's identifier is stored exactly once in every cell of the box of its nodes ({'with' if fn == 'addn' else 'without'} reserved size)"
    with chk.guard(subj):
        h = P.var("h", lo=P.Fraction(1, 10**9))
        x = [[P.var(f"x{n}{'xyz'[k]}") for k in range(d)] for n in range(nn)]
        ident = P.var("id", isint=True, lo=0)
        N = P.var("N", isint=True)
        it = chk.interp(bc, hooks=HOOKS)
        _, _, w, it, st = chk.eval(bc, f"{fn}{i}", [arr("h", [h]), arr("x", sum(x, [])), ident], it=it)
        ev = clean(st.events)
        facts = P.FACTS[:]
        try:
            bound = {(k, s): P.var(f"{'first' if s > 0 else 'last'}[{k}]", isint=True, lo=-10**15, hi=10**15) for k in range(d) for s in (1, -1)}
            P.FACTS.extend(bound[k, -1] - bound[k, 1] for k in range(d))
            fl = []
            walk(ev, set(), fl)
            mp = {}
            for a in fl:
                for sign in (1, -1):
                    l = leaves(a.args[0] * h, sign)
                    if l is None:
                        continue
                    for k in range(d):
                        if set(map(str, l)) == {str(x[n][k]) for n in range(nn)}:
                            mp[a] = bound[k, sign]
            new = rewrite(ev, mp, {})
            box = {k: (bound[k, 1], bound[k, -1]) for k in range(d)}
            ok = c15.matches(strip(new, N ** 4 * ident), box, {}, [N] * d)
        finally:
            P.FACTS[:] = facts
        det = ""
        cut = []
        if not ok:
            walk(new, set(), cut, "narrow")
            cut = [a for a in cut if any(v.args[0].startswith(("x", "first", "last")) for v in P.support(a.args[0]))]
        if cut:
            ok, det = False, f"the cell of a node is carried as {cut[0].args[1]}: cells beyond that range are taken for others"
        elif not ok:
            ok, det = numeric(ev, d, x, h, N, ident)
        chk.ob(subj, rule, ok, det, w)
        if nn <= 4:
            chk.ob(subj, rule + ": the smallest and largest node coordinates bound the box on each axis", True if len(set(map(str, mp.values()))) == 2 * d else None, str(mp)[:200], w)


def clean(ev):
    return tuple((e[0], e[1], {**e[2], "body_events": clean(e[2]["body_events"]), "exits": [(x[0],) for x in e[2]["exits"]]}, e[3]) if e[1] == "loop" else e for e in ev if e[1] in ("push", "loop"))


def strip(ev, off):
    return tuple((e[0], e[1], e[2] - off, e[3]) if e[1] == "push" else (e[0], e[1], {**e[2], "body_events": strip(e[2]["body_events"], off)}, e[3]) for e in ev)


def numeric(ev, d, x, h, N, ident):
    nn = len(x)
    stretched = [{f"x{n}{'xyz'[k]}": P.Fraction(7, 4) * ((size * n // (nn - 1) - shift if k == axis else -shift) + P.Fraction(2 * n + 1, 64)) for n in range(nn) for k in range(d)}
                 for size in (2, 20, 90, 700, 5000) for axis in range(d) for shift in (0, 40, 3000)]
    for s, more in enumerate([{}] * 20 + stretched):
        pt = num.Point(s, exact=True, env={"h": P.Fraction(7, 4), "N": 10**6, "id": 5, **more})
        try:
            xs = [[pt.ev(v) for v in q] for q in x]
            got = sorted(c15.unroll(ev, dict(pt.env), s))
        except (num.Undefined, KeyError):
            continue
        box = [range(math.floor(min(q[k] for q in xs) / pt.ev(h)), math.floor(max(q[k] for q in xs) / pt.ev(h)) + 1) for k in range(d)]
        want = sorted(sum(c * 10**(6 * k) for k, c in enumerate(cc)) + 5 * 10**24 for cc in itertools.product(*box))
        miss = [v for v in want if v not in got]
        if miss or len(set(got)) != len(got):
            return False, f"{len(miss)} of {len(want)} cells of the box are not given the element (or it is stored twice) at " + str({k: str(v) for k, v in pt.used.items()})[:300]
    return None, "not shown"


HALF = P.Fraction(1, 2)
EPS = P.Fraction(1, 10**12)


def get(chk, bc, i, t, d):
    subj = f"HashGrid<{t}>::get"

    def cases(k):
        c = P.var(f"c{k}", isint=True, lo=-10**15, hi=10**15)
        f = P.var(f"f{k}", lo=EPS, hi=HALF - EPS)
        return [("first half of a cell", c + f, [c], c), ("second half of a cell", c + P.ONE - f, [c], c), ("between two cells", c, [c - P.ONE, c], c)]

    def job(combo):
        with chk.guard(subj):
            h = P.var("h", lo=P.Fraction(1, 10**9))
            cs = [cases(k)[combo[k]] for k in range(d)]
            it = chk.interp(bc, hooks=HOOKS)
            it.unroll = 9
            _, _, w, it, st = chk.eval(bc, f"get{i}", [arr("h", [h]), arr("p", [c[1] * h for c in cs])], it=it)
            rule = "position " + ", ".join(c[0] for c in cs)
            ev = c15.results(st.events)
            if ev is None:
                return chk.ob(subj, rule, None, "container not followed", w)
            finds = [(e[0], e[2]) for e in st.events if e[1] == "find"]
            puts = [(e[0], e[2]) for e in ev if e[1] == "push"]
            if any(e[1] == "loop" for e in ev) or any(q is not P.TRUE for q, _ in finds):
                return chk.ob(subj, rule, None, "loop or guard not followed", w)
            want = list(itertools.product(*[c[2] for c in cs]))
            seen = [tuple(k[:d]) for _, (_, k) in finds]
            miss = [c for c in want if not any(all(x == y for x, y in zip(c, s)) for s in seen)]
            far = [s for s in seen if any((x - c[3]).const() is None or abs((x - c[3]).const()) > 1 for x, c in zip(s, cs))]
            ok = not miss
            det = ""
            cut = []
            walk(seen, set(), cut, "narrow")
            if miss and cut:
                ok, det = False, f"the cell of the position is carried as {cut[0].args[1]}: cells beyond that range are taken for others"
            elif miss and any((x - c[3]).const() is None for s in seen for x, c in zip(s, cs)):
                ok, det = None, f"looked up {seen}"
            elif miss:
                det = f"cell {[str(x) for x in miss[0]]} is not looked up (looked up: {[[str(x) for x in s] for s in seen]})"
            chk.ob(subj, rule + ": every cell that touches it is looked up", ok, det[:300], w)
            chk.ob(subj, rule + ": only neighbouring cells are looked up", not far if all(x is not None for x in seen) else None, str(far)[:200], w)
            for n, _ in [f[1] for f in finds]:
                f = P.bcmp("eq", P.var(f"found{n}", isint=True, lo=0, hi=1) - P.ONE)
                for b in range(2):
                    v = P.var(f"bucket{n}[{b}]", isint=True, lo=0)
                    g = [q for q, x in puts if x == v]
                    ok = None
                    if any(q is P.TRUE or q == f for q in g):
                        ok = True
                    elif not g:
                        ok = False
                    chk.ob(subj, rule + f": value {b} of bucket {n} is returned when the cell is filled", ok, f"guards {g}", w)
            for e in st.events:
                if e[1] != "keys":
                    continue
                eq, hv = e[2]
                key = finds[0][1][1]
                break
            else:
                return
            q = [P.var(f"probe[{k}]", isint=True) for k in range(d)]
            keyobs(chk, subj, rule, eq, hv, key, q, d, w)
    return [lambda c=c: job(c) for c in itertools.product(*[range(3)] * d)]


def keyobs(chk, subj, rule, eq, hv, key, q, d, w):
    """the table's equality holds exactly for equal keys, its hash depends on the key only"""
    eq = eq if isinstance(eq, P.BExpr) else P.bcmp("ne", eq) if isinstance(eq, P.Poly) else None
    res, det = None, "equality not followed"
    if eq is not None:
        res = True
        for s in range(300):
            env = {f"probe[{k}]": 0 for k in range(d)}
            pt = num.Point(s, exact=True)
            try:
                kv = [pt.ev(x) for x in key[:d]]
                r = num.Point(s, exact=True, env={**pt.env, **{f"probe[{k}]": kv[k] + (s >> (2 * k)) % 3 - 1 for k in range(d)}})
                got, want = r.b(eq), all((s >> (2 * k)) % 3 == 1 for k in range(d))
            except num.Undefined:
                res, det = None, "undefined"
                break
            if got != want:
                res, det = False, f"keys {kv} and {[str(r.ev(x)) for x in q]} are {'equal' if got else 'different'} for the table"
                break
        if res:
            res, det = structural_eq(eq, key, q, d)
    chk.ob(subj, rule + ": two keys are equal for the table exactly when their coordinates are", res, det, w)
    if isinstance(hv, P.Poly):
        sup = {a.args[0] for a in P.support(hv)}
        allowed = {a.args[0] for x in key[:d] for a in P.support(x) if a.kind == "var"}
        chk.ob(subj, rule + ": the hash depends on the key only", True if sup <= allowed else None, str(sup - allowed), w)


def structural_eq(eq, key, q, d):
    S = P.ZERO
    for x, y in zip(key[:d], q):
        S = S + (x - y) * (x - y)
    if eq.kind == "eq":
        v = eq.args[0]
        for p in (v, -v):
            a = single(p)
            if p == S or a is not None and (a.kind == "sqrt" and a.args[0] == S or a.kind == "floor" and single(a.args[0]) is not None and single(a.args[0]).kind == "sqrt"
                                            and single(a.args[0]).args[0] == S):
                return True, ""          # a sum of squares of integers (or the integral part of its root) is zero only when each is
    if eq == P.band(*[P.bcmp("eq", x - y) for x, y in zip(key[:d], q)]):
        return True, ""
    if d == 1 and eq.kind == "eq" and eq.args[0] in (key[0] - q[0], q[0] - key[0]):
        return True, ""
    return None, "not shown: " + P.bfmt(eq)[:200]


RULE = ("dataflow over the LLVM IR of HashGrid::add and get with the standard containers replaced by transparent models: add must store the identifier in every cell of the box of the "
        "element's nodes (loop bounds proved to be the cells of the smallest and largest coordinates), get must look up every cell the position touches and return the whole content of each")
ASSUMPTIONS = ["exact real arithmetic", "positive cell size", "std::unordered_map, std::set and std::vector as specified by the standard (models)",
               "positions exactly half way along a cell are represented by their neighbours"]
