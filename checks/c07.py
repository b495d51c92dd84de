"""C07: world to local coordinates."""
from engine import absint as A, elements as EL, poly as P, build

MOCK = '''
#include "elements.hpp"
// An element whose mapping T and its jacobian are arbitrary functions of the local point
extern "C" double op_T(int k, const double * xi, int n);
extern "C" double op_J(int k, int j, const double * xi, int n);
template <int C, int D> struct Mock;
namespace caribou::geometry {
template <int C, int D> struct traits<Mock<C, D>> {
    static constexpr INTEGER_TYPE CanonicalDimension = C;
    static constexpr INTEGER_TYPE Dimension = D;
    static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = D;
    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 1;
};
}
template <int C, int D> struct Mock : public Element<Mock<C, D>> {
    using Base = Element<Mock<C, D>>;
    friend struct Element<Mock<C, D>>;
    using LocalCoordinates = typename Base::LocalCoordinates;
    using WorldCoordinates = typename Base::WorldCoordinates;
    template <int R, int Q> using Matrix = typename Base::template Matrix<R, Q>;
    template <int R> using Vector = typename Base::template Vector<R>;
private:
    auto get_number_of_nodes() const { return D; }
    auto get_number_of_gauss_nodes() const { return 1; }
    auto get_node(const UNSIGNED_INTEGER_TYPE & i) const -> WorldCoordinates { return WorldCoordinates::Unit(i); }
    auto get_nodes() const -> Matrix<D, D> { return Matrix<D, D>::Identity(); }
    auto get_center() const -> WorldCoordinates { return WorldCoordinates::Zero(); }
    auto get_L(const LocalCoordinates & xi) const -> Vector<D> {
        double x[C]; for (int i = 0; i < C; ++i) x[i] = xi[i];
        Vector<D> r; for (int k = 0; k < D; ++k) r[k] = op_T(k, x, C); return r;
    }
    auto get_dL(const LocalCoordinates & xi) const -> Matrix<D, C> {
        double x[C]; for (int i = 0; i < C; ++i) x[i] = xi[i];
        Matrix<D, C> r; for (int k = 0; k < D; ++k) for (int j = 0; j < C; ++j) r(k, j) = op_J(k, j, x, C); return r;
    }
};
template <class E, unsigned N> void run(const double * x, const double * x0, const double * tol, double * out) {
    const E e; UNSIGNED_INTEGER_TYPE n = N; put(out, e.local_coordinates(world<E>(x), local<E>(x0), *tol, n));
}
#define W(C, D) \\
extern "C" void w_##C##D##_0(const double * x, const double * x0, const double * tol, double * out) { run<Mock<C, D>, 0>(x, x0, tol, out); } \\
extern "C" void w_##C##D##_1(const double * x, const double * x0, const double * tol, double * out) { run<Mock<C, D>, 1>(x, x0, tol, out); } \\
extern "C" void w_##C##D##_2(const double * x, const double * x0, const double * tol, double * out) { run<Mock<C, D>, 2>(x, x0, tol, out); } \\
extern "C" void w_##C##D##_3(const double * x, const double * x0, const double * tol, double * out) { run<Mock<C, D>, 3>(x, x0, tol, out); } \\
extern "C" void w_##C##D##_5(const double * x, const double * x0, const double * tol, double * out) { run<Mock<C, D>, 5>(x, x0, tol, out); } \\
extern "C" void w_##C##D##_d(const double * x, double * out) { const Mock<C, D> e; put(out, e.local_coordinates(world<Mock<C, D>>(x))); }
W(1,1) W(2,2) W(3,3) W(1,2) W(1,3) W(2,3)
'''

BODY = '''
extern "C" void w_world(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.world_coordinates(local<E>(xi))); }
extern "C" void w_local(const double * n, const double * x, const double * x0, double * out) { const E e = MAKE(n); UNSIGNED_INTEGER_TYPE m = 1; put(out, e.local_coordinates(world<E>(x), local<E>(x0), 1e-5, m)); }
'''


def fn(name, *a):
    return P.apoly(P.atom("fn", name, *a))


def T(k, xi):
    return fn(f"T{k}", *xi)


def J(k, j, xi):
    return fn(f"J{k}{j}", *xi)


def hook(it, st, args, I, name):
    nidx = 1 if name == "op_T" else 2
    idx = [int(it.num(a).const()) for a in args[:nidx]]
    c = int(it.num(args[nidx + 1]).const())
    f64 = it.f64()
    p = args[nidx]
    xi = [it.load(st, A.Ptr(p.obj, p.off + P.K(8 * i)), f64) for i in range(c)]
    return T(idx[0], xi) if name == "op_T" else J(idx[0], idx[1], xi)


def inverse(M):
    n = len(M)
    if n == 1:
        return [[P.inv(M[0][0])]]
    if n == 2:
        d = P.inv(M[0][0] * M[1][1] - M[0][1] * M[1][0])
        return [[M[1][1] * d, -M[0][1] * d], [-M[1][0] * d, M[0][0] * d]]
    cof = [[M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3]
            for j in range(3)] for i in range(3)]
    d = P.inv(sum((M[0][j] * cof[0][j] for j in range(3)), P.ZERO))
    return [[cof[j][i] * d for j in range(3)] for i in range(3)]


def mul(A_, B):
    return [[sum((A_[i][k] * B[k][j] for k in range(len(B))), P.ZERO) for j in range(len(B[0]))] for i in range(len(A_))]


def step(c, d, x, xi):
    r = [[x[k] - T(k, xi)] for k in range(d)]
    Jm = [[J(k, j, xi) for j in range(c)] for k in range(d)]
    if c == d:
        dx = mul(inverse(Jm), r)
    else:
        Jt = [list(z) for z in zip(*Jm)]
        dx = mul(inverse(mul(Jt, Jm)), mul(Jt, r))
    return [xi[j] + dx[j][0] for j in range(c)]


def res2(d, x, xi):
    s = P.ZERO
    for k in range(d):
        r = x[k] - T(k, xi)
        s = s + r * r
    return s


def newton(c, d, x, x0, tol2, n):
    """documented recursion: at least one step; stop at |R| < tol |R0| or after n steps"""
    r0 = res2(d, x, x0)
    pts = [step(c, d, x, x0)]
    while len(pts) < n:
        pts.append(step(c, d, x, pts[-1]))
    out = pts[-1]
    for p in reversed(pts[:-1]):
        go = P.bcmp("le", r0 * tol2 - res2(d, x, p))
        out = [P.ite(go, o, q) for o, q in zip(out, p)]
    return out


def run(chk):
    bc = build.compile_source(MOCK, "c07_mock")
    one = {k: (1, 2, 3, 5) if k == (1, 1) else (1, 2, 3) for k in ((1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3))}
    for (c, d), its in one.items():
        subj = f"local_coordinates, {c}D element in {d}D"
        for n in list(its) + ["d"]:
            if chk.verbose: print(subj, n, round(__import__("time").time()-chk.t0,1), flush=True)
            with chk.guard(f"{subj}, {n} iterations"):
                it = chk.interp(bc, hooks={"op_T": hook, "op_J": hook})
                it.unroll = 8
                st = A.State()
                xp = it.input_array(st, "x")
                x = [P.var(f"x[{k}]") for k in range(d)]
                args = [xp]
                x0, tol, m = [P.ZERO] * c, P.K(P.rat_of_float(1e-5)), 5
                if n != "d":
                    args += [it.input_array(st, "x0"), it.input_array(st, "tol", lo=P.Fraction(1, 10**12), hi=1)]
                    x0, tol, m = [P.var(f"x0[{j}]") for j in range(c)], P.var("tol[0]", lo=P.Fraction(1, 10**12), hi=1), n
                elif c > 1 or d > 1:
                    continue
                out = it.output(st, "out")
                ret, s = it.call(f"w_{c}{d}_{n}", args + [out], st)
                chk.account(it)
                got = [s.mem[out.obj].cells.get(8 * j, (0, A.UNDEF))[1] for j in range(c)]
                want = newton(c, d, x, x0, tol * tol if n != "d" else P.K(P.rat_of_float(1e-5 * 1e-5)), m)
                zero = P.bcmp("eq", res2(d, x, x0))
                w = chk.where(it)
                what = f"{m} iterations at most" if n != "d" else "default start, tolerance and iterations"
                for j in range(c):
                    g = P.assume(got[j], {zero: False}) if isinstance(got[j], P.Poly) else got[j]
                    chk.equal(subj, f"{what}: coordinate {j} is the Newton iterate at which |R| < tol |R0|, or the last allowed",
                              g, want[j], w, env=lambda i: {"tol[0]": [0.5, 0.9, 1e-3, 0.1, 0.99][i % 5]})
                    if isinstance(got[j], P.Poly):
                        gz = P.assume(got[j], {zero: True})
                        ok = P.is_zero(gz - x0[j]) or P.is_zero(P.assume(want[j], {zero: True}) - gz)
                        chk.ob(subj, f"{what}: coordinate {j} is the starting point when it is exact", True if ok else None,
                               P.fmt(gz, 5), w)
    names = [n for n in EL.ELEMENTS if EL.ELEMENTS[n][2] == "Linear" and EL.ELEMENTS[n][1] in ("segment", "triangle", "tetra")]
    el = EL.Elements(chk, lambda n, i: BODY, names, tag="c07_")
    for n, e in el.errors().items():
        raise e
    P.CANCEL[0] = True
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        c = EL.CDIM[shape]
        w, _, _ = el.run(n, "w_world", ["n", "xi"], dim)
        x = {"name": "x", "cells": dict(enumerate(w))}
        lo, _, it = el.run(n, "w_local", ["n", x, "x0"], c)
        for j in range(c):
            g = lo[j]
            for q in P.conditions(g) if isinstance(g, P.Poly) else ():
                if q.kind == "eq":
                    g = P.assume(g, {q: False})
            chk.equal(n, f"one Newton step from any point: local_coordinates(world_coordinates(xi))[{j}] = xi[{j}]", g, P.var(f"xi[{j}]"), EL.src(n, chk, it))


RULE = ("abstract value of local_coordinates with the element mapping and its jacobian as uninterpreted functions, iteration bound "
        "unrolled, compared with the documented Newton recursion; for affine elements, composition with world_coordinates is the identity")
ASSUMPTIONS = ["exact real arithmetic", "the element is not degenerate (jacobian of full rank)"]
