"""C11: intersection of a hexahedron with segments and triangles."""
import random

from engine import absint as A, build, check, lin, num, poly as P
from checks.c09 import cross, dot, generic

SRC = '''
#include "elements.hpp"
// hexahedra whose local frame is the world frame: the test in local coordinates is under analysis
template <template <class> class B> struct Mock;
namespace caribou::geometry {
template <template <class> class B> struct traits<Mock<B>> {
    static constexpr INTEGER_TYPE CanonicalDimension = 3;
    static constexpr INTEGER_TYPE Dimension = 3;
    static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
};
}
template <template <class> class B> struct Mock : public B<Mock<B>> {
    using Base = B<Mock>; friend struct Element<Mock>; friend Base; using Base::Base;
    using LocalCoordinates = typename Base::LocalCoordinates;
    auto local_coordinates(const typename Base::WorldCoordinates & x) const -> LocalCoordinates { return x; }
};
using G = Mock<BaseHexahedron>; using R = RectangularHexahedron<Linear>; using R2 = RectangularHexahedron<Quadratic>;
using S = Segment<_3D, Linear>; using T = Triangle<_3D, Linear>;
#define P3(i) Eigen::Vector3d(n[3*i], n[3*i+1], n[3*i+2])
#define W(X) \\
extern "C" bool w_##X##_seg(const double * n) { const X e; return e.intersects(S(P3(0), P3(1))); } \\
extern "C" bool w_##X##_seg_eps(const double * n, const double * eps) { const X e; return e.intersects(S(P3(0), P3(1)), *eps); } \\
extern "C" bool w_##X##_tri(const double * n) { const X e; return e.intersects(T(P3(0), P3(1), P3(2))); } \\
extern "C" bool w_##X##_tri_eps(const double * n, const double * eps) { const X e; return e.intersects(T(P3(0), P3(1), P3(2)), *eps); }
W(G) W(R) W(R2)
'''
NAMES = {"G": "Hexahedron", "R": "RectangularHexahedron<Linear>", "R2": "RectangularHexahedron<Quadratic>"}


def pt(i):
    return [P.var(f"n[{3 * i + k}]") for k in range(3)]


def vec(n):
    return [P.var(f"{n}{k}") for k in range(3)]


TRI = [vec("q"), [x + y for x, y in zip(vec("q"), vec("a"))], [x + y for x, y in zip(vec("q"), vec("b"))]]


def neg(p):
    return P.bcmp("lt", p)


def le(p):
    return P.bcmp("le", p)


def seg_sat(a, b):
    """separating axis theorem for a segment and the cube [-1,1]^3: 3 face normals, 3 edge x segment"""
    e = [y - x for x, y in zip(a, b)]
    s = [P.ite(neg(x), P.K(-1), P.ONE) for x in e]
    r = []
    for i in range(3):
        n = neg(e[i])
        r.append(le(P.ite(n, b[i], a[i]) - P.ONE))        # smaller end <= 1
        r.append(le(-P.ONE - P.ite(n, a[i], b[i])))       # larger end >= -1
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        d = e[k] * a[j] - e[j] * a[k]
        h = e[k] * s[k] + e[j] * s[j]                     # |e_k| + |e_j| >= 0
        r.append(le(d * d - h * h))
    return P.band(*r), [neg(x) for x in e]


def cases(chk, subj, rule, got, want, signs, where, env):
    """boolean equality, by cases on the signs of the edge components"""
    ok, det = check.bsame(got, want, env=env, n=600)
    if ok is None and not check.havoc(got):
        ok = True
        for m in range(1 << len(signs)):
            e = {}
            for i, c in enumerate(signs):
                put(e, c, bool(m >> i & 1))
            g, w = P.assume(got, e), P.assume(want, e)
            if g is not w and not lin.equivalent(g, w, []):
                ok = None
                det = "case " + str(m) + ": " + P.bfmt(g)[:200] + " / " + P.bfmt(w)[:200]
                break
    chk.ob(subj, rule, ok, det, where)


def put(env, c, v):
    if c.kind == "not":
        env[c.args[0]] = not v
    elif c.kind not in ("true", "false"):
        env[c] = v


def rnd(i):
    r = random.Random(i)
    s = r.choice([1.2, 2, 4])
    d = {f"n[{k}]": r.uniform(-s, s) for k in range(9)}
    for k in range(9):
        if r.random() < .12:
            d[f"n[{k}]"] = r.choice([0, .5, -.5, 1.5, -1.5])
    d["eps[0]"] = r.choice([1e-6, 1e-3, .1])
    return d


def tri_ref(n0, n1, n2):
    """edges, or the point where the plane meets the cube diagonal closest to its normal lies in the triangle"""
    N = cross([a - b for a, b in zip(n1, n2)], [a - b for a, b in zip(n2, n0)])
    diag = [P.ite(neg(x), P.K(-1), P.ONE) for x in N]
    t = P.div(dot(N, n0), dot(N, diag))
    on = P.band(le(t - P.ONE), le(-P.ONE - t))
    q = [x * t for x in diag]
    # inside the triangle: barycentric coordinates of q with respect to the normal N are all >= 0
    ins = []
    for a, b in ((n0, n1), (n1, n2), (n2, n0)):
        ins.append(P.bnot(neg(dot(N, cross([y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, q)])))))
    return P.band(on, *ins)


def run(chk):
    P.CANCEL[0] = True
    P.GENERIC[0] = generic
    bc = build.compile_source(SRC, "c11")

    bc2 = build.compile_source(SRC, "c11n", inline=-5000)

    def segment(it, st, args, I, name):
        """the segment test, decided separately, as an opaque predicate of its (unordered) end points"""
        f64 = it.f64()
        ends = sorted((tuple(it.load(st, A.Ptr(p.obj, p.off + P.K(8 * i)), f64) for i in range(3)) for p in args[1:3]), key=str)
        return P.batom("seg", *ends)

    def call(f, eps=False, bc=bc, hook=False):
        it = chk.interp(bc)
        it.unroll = 8
        if hook:
            it.prefix_hooks.append(("*intersects_local_segment", segment))
        st = A.State()
        args = [it.input_array(st, "n")]
        if hook:                                   # triangle given by a point and two free edge vectors
            for i, x in enumerate(TRI[0] + TRI[1] + TRI[2]):
                it.store(st, A.Ptr(args[0].obj, P.K(8 * i)), x, it.f64())
        if eps:
            args.append(it.input_array(st, "eps", lo=P.Fraction(1, 10**15)))
        r, s = it.call(f, args, st)
        chk.account(it)
        if isinstance(r, P.Poly):
            r = P.bnot(P.bcmp("eq", r))
        return r, chk.where(it)
    a, b, c = pt(0), pt(1), pt(2)
    want, signs = seg_sat(a, b)
    for k, nm in NAMES.items():
        with chk.guard(nm + " segment"):
            g0, w = call(f"w_{k}_seg")
            cases(chk, nm, "a segment intersects exactly when no separating axis exists", g0, want, signs, w, rnd)
            ge, w = call(f"w_{k}_seg_eps", True)
            imp = P.bor(P.bnot(want), ge)
            cases(chk, nm, "a tolerance never rejects an intersecting segment", imp, P.TRUE, signs, w, rnd)
        with chk.guard(nm + " triangle"):
            t0, w = call(f"w_{k}_tri", bc=bc2, hook=True)
            triangle(chk, nm, t0, w)
        with chk.guard(nm + " triangle with tolerance"):
            t1, w = call(f"w_{k}_tri_eps", True, bc=bc2, hook=True)
            f = P.bor(P.bnot(t0), t1)
            sep = num.separate(f, P.TRUE, n=500, env=rnd_tri)
            ok = False if sep else None
            det = "rejected at " + check.fmtpt(sep[0]) if sep else "not shown"
            if not sep and not check.havoc(f):
                ok = implied(t0, t1)
            chk.ob(nm, "a tolerance never rejects an intersecting triangle", ok, det, w)


def implied(a, b):
    """a => b: conditions of a that are stronger than a condition of b (p <= 0 with p >= p') are propagated, the rest is propositional"""
    la, lb = P.leaves(a), P.leaves(b)
    new = [l for l in lb if l not in la and l.kind == "le"]
    for l in (l for l in la if l not in lb and l.kind == "le"):
        strong = {m: True for m in new if P.is_nonneg(l.args[0] - m.args[0]) or (P.interval(l.args[0] - m.args[0])[0] or -1) >= 0}
        a1, b1 = P.assume(a, {l: True}), P.assume(b, {l: True, **strong})
        a2 = P.assume(a, {l: False})
        if P.bor(P.bnot(a1), b1) is P.TRUE and P.bor(P.bnot(a2), b) is P.TRUE:
            return True
        if lin.valid(P.bor(P.bnot(a1), b1)) and lin.valid(P.bor(P.bnot(a2), b)):
            return True
    return True if a is b else None


def triangle(chk, nm, got, w):
    n0, n1, n2 = TRI
    edges = [P.batom("seg", *sorted((tuple(x), tuple(y)), key=str)) for x, y in ((n0, n1), (n1, n2), (n2, n0))]
    for i, e in enumerate(edges):
        ok = P.assume(got, {e: True}) is P.TRUE
        if not ok:
            sep = num.separate(P.bor(P.bnot(e), got), P.TRUE, n=500, env=rnd_tri)
            ok = False if sep and not check.havoc(got) else None
        chk.ob(nm, f"a triangle whose edge {i} intersects, intersects", ok, "" if ok else "edge test does not decide", w)
    none = P.assume(got, {e: False for e in edges})
    # against the geometric definition of the remaining case: the crossing point of plane and diagonal is in the triangle
    want = tri_ref(*TRI)
    sep = num.separate(none, want, n=800, env=rnd_tri)
    if sep and not check.havoc(none):
        chk.ob(nm, "otherwise, exactly when the plane crosses the diagonal inside the triangle and the cube", False,
               f"answers {sep[1]} where {sep[2]} is required, at {check.fmtpt(sep[0])}", w)
        return
    # by cases on the signs of the normal and its dominant component: crossing number of the projected triangle
    N = cross([y - x for x, y in zip(n0, n1)], [y - x for x, y in zip(n0, n2)])
    for m in range(8):
        for z in range(3):
            hyp = {}
            for k in range(3):
                put(hyp, neg(N[k]), bool(m >> k & 1))
            sg = [-1 if m >> k & 1 else 1 for k in range(3)]
            x, y = (z + 1) % 3, (z + 2) % 3
            absn = [P.pabs(c) for c in N]
            order = {0: (True, True, None), 1: (False, None, True), 2: (None, False, False)}
            for g in ([(True, True, None)] if z == 0 else [(False, None, True)] if z == 1 else [(True, False, None), (False, None, False)]):
                h = dict(hyp)
                for v, (i, j) in zip(g, ((0, 1), (0, 2), (1, 2))):
                    if v is not None:
                        put(h, neg(absn[j] - absn[i]), v)
                r = P.assume(none, h)
                ref = P.assume(crossing(N, sg, z), h)
                ok = r is ref or (lin.equivalent(r, ref, []) or None)
                chk.ob(nm, f"otherwise by crossing number, normal signs {sg}, dominant axis {z}", ok, P.bfmt(r)[:150], w)


def crossing(N, sg, z):
    n0, n1, n2 = TRI
    x, y = ((z + 1) % 3, (z + 2) % 3) if sg[z] > 0 else ((z + 2) % 3, (z + 1) % 3)
    diag = [P.K(s) for s in sg]
    t = P.div(dot(N, n0), dot(N, diag))
    q = [d * t for d in diag]
    on = P.bnot(P.bcmp("lt", -(t - P.ONE) * (t + P.ONE)))
    on = P.bcmp("le", (t - P.ONE) * (t + P.ONE))
    cnt = P.ZERO
    for a, b in ((n0, n1), (n1, n2), (n2, n0)):
        def between(u, v, k):
            return P.ite(neg(q[k] - v[k]), P.ONE, P.ZERO) - P.ite(neg(q[k] - u[k]), P.ONE, P.ZERO)
        dx, dy = between(a, b, x), between(a, b, y)
        side = P.bcmp("le", dx * (q[x] - a[x]) * (b[y] - a[y]) - dx * (q[y] - a[y]) * (b[x] - a[x]))
        cnt = cnt + P.ite(P.bcmp("eq", dx), P.ZERO, P.ite(P.bcmp("eq", dy), P.ite(P.bcmp("le", b[y] - q[y]), dx, P.ZERO), P.ite(side, dx, P.ZERO)))
    return P.band(on, P.bnot(P.bcmp("eq", cnt)))


def rnd_tri(i):
    r = random.Random(i)
    s = r.choice([.5, 2, 6])
    d = {}
    for k in range(3):
        d[f"q{k}"], d[f"a{k}"], d[f"b{k}"] = r.uniform(-s, s), r.uniform(-2 * s, 2 * s), r.uniform(-2 * s, 2 * s)
    d["eps[0]"] = r.choice([1e-6, 1e-3, .1])
    return d


RULE = ("boolean formula computed by intersects() as a function of the end points, compared with the separating axis theorem by cases on the "
        "signs of the edge components; the formula of the triangle test compared with edge tests plus plane/diagonal crossing")
ASSUMPTIONS = ["exact real arithmetic"]
