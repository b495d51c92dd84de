"""C09: frames and normals."""
from engine import absint as A, build, elements as EL, num, poly as P
from checks.c07 import fn, mul

MOCK = '''
#include "elements.hpp"
extern "C" double op_T(int k, const double * xi, int n);
template <template <class> class B, int C, int D> struct Mock;
namespace caribou::geometry {
template <template <class> class B, int C, int D> struct traits<Mock<B, C, D>> {
    static constexpr INTEGER_TYPE CanonicalDimension = C;
    static constexpr INTEGER_TYPE Dimension = D;
    static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = D;
    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 1;
};
}
// a quad or hexahedron whose mapping is an arbitrary function of the local point
template <template <class> class B, int C, int D> struct Mock : public B<Mock<B, C, D>> {
    using Base = B<Mock>; friend struct Element<Mock>; friend Base;
    using LocalCoordinates = typename Base::LocalCoordinates;
    using WorldCoordinates = typename Base::WorldCoordinates;
private:
    auto get_nodes() const -> Eigen::Matrix<double, D, D> { return Eigen::Matrix<double, D, D>::Identity(); }
    auto get_L(const LocalCoordinates & xi) const -> Eigen::Matrix<double, D, 1> {
        double x[C]; for (int i = 0; i < C; ++i) x[i] = xi[i];
        Eigen::Matrix<double, D, 1> r; for (int k = 0; k < D; ++k) r[k] = op_T(k, x, C); return r;
    }
};
using H = Mock<BaseHexahedron, 3, 3>; using Q2 = Mock<BaseQuad, 2, 2>; using Q3 = Mock<BaseQuad, 2, 3>;
extern "C" void w_H(const double * xi, double * out) { const H e; put(out, e.frame(local<H>(xi))); }
extern "C" void w_Q2(const double * xi, double * out) { const Q2 e; put(out, e.frame(local<Q2>(xi))); }
extern "C" void w_Q3(const double * xi, double * out) { const Q3 e; put(out, e.frame(local<Q3>(xi))); }
extern "C" void w_H0(const double *, double * out) { const H e; put(out, e.frame()); }
extern "C" void w_Q20(const double *, double * out) { const Q2 e; put(out, e.frame()); }
extern "C" void w_Q30(const double *, double * out) { const Q3 e; put(out, e.frame()); }
template <class E> void tframe(const double * n, double * out) { const E e = from_nodes<E>(n); put(out, e.frame()); }
extern "C" void w_T4(const double * n, double * out) { tframe<Tetrahedron<Linear>>(n, out); }
extern "C" void w_T10(const double * n, double * out) { tframe<Tetrahedron<Quadratic>>(n, out); }
extern "C" void w_N3(const double * n, double * out) { const Triangle<_3D, Linear> e = from_nodes<Triangle<_3D, Linear>>(n); put(out, e.normal()); }
extern "C" void w_N6(const double * n, double * out) { const Triangle<_3D, Quadratic> e = from_nodes<Triangle<_3D, Quadratic>>(n); put(out, e.normal()); }
'''


NAMED = {}


def T(k, xi):
    """mapping of the local point: a free point p, p + a and p + b at the three points the frame is built from"""
    nm = NAMED.get(tuple(xi))
    if nm == "p":
        return P.var(f"p{k}")
    if nm:
        return P.var(f"p{k}") + P.var(f"{nm}{k}")
    return fn(f"T{k}", *xi)


def hook(it, st, args, I, name):
    k, c = int(it.num(args[0]).const()), int(it.num(args[2]).const())
    p = args[1]
    return T(k, [it.load(st, A.Ptr(p.obj, p.off + P.K(8 * i)), it.f64()) for i in range(c)])


def cross(a, b):
    return [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), P.ZERO)


def unit(a):
    n = P.sqrt(dot(a, a))
    return [x * P.inv(n) for x in a]


def generic(rel, p):
    """non-degenerate elements: a length that is positive at every sampled input is positive"""
    signs = SIGNS.get(p)
    if signs is None:
        signs = SIGNS[p] = sign_of(p)
    if signs == {1}:
        return False
    if signs == {-1}:
        return rel != "eq"
    return None


SIGNS = {}


def sign_of(p):
    signs = set()
    import random
    vs = [a for a in P.support(p) if a.lo is None and a.hi is None]
    for i in range(36):
        r = random.Random(i)
        k = (.05, .7, 3, 40)[i % 4]
        try:
            v = num.Point((7, i), env={a.args[0]: r.uniform(-k, k) for a in sorted(vs, key=lambda a: a.args[0])}).ev(p)
        except (num.Undefined, OverflowError):
            continue
        signs.add(0 if v == 0 else 1 if v > 0 else -1)
        if len(signs) > 1:
            break
    return signs


def run(chk):
    P.CANCEL[0] = True
    P.GENERIC[0] = generic
    bc = build.compile_source(MOCK, "c09_mock")

    def call(f, arg, n, cells=()):
        it = chk.interp(bc, hooks={"op_T": hook})
        st = A.State()
        a = it.input_array(st, arg)
        for i in cells:
            it.store(st, A.Ptr(a.obj, P.K(8 * i)), cells[i], it.f64())
        out = it.output(st, "out")
        ret, s = it.call(f, [a, out], st)
        chk.account(it)
        return [s.mem[out.obj].cells.get(8 * i, (0, A.UNDEF))[1] for i in range(n)], chk.where(it)

    for f, c, d in (("w_H", 3, 3), ("w_Q2", 2, 2), ("w_Q3", 2, 3), ("w_H0", 3, 3), ("w_Q20", 2, 2), ("w_Q30", 2, 3)):
        subj = ("hexahedron" if "H" in f else f"quad in {d}D") + (" frame at the centre" if f.endswith("0") else " frame at any local point")
        with chk.guard(subj):
            xi = [P.ZERO] * c if f.endswith("0") else [P.var(f"xi[{i}]") for i in range(c)]
            NAMED.clear()
            NAMED[tuple(xi)], NAMED[tuple([P.ONE] + xi[1:])], NAMED[tuple([xi[0], P.ONE] + xi[2:])] = "p", "a", "b"
            got, w = call(f, "xi", d * d)
            frame_obs(chk, subj, got, [P.var(f"a{k}") for k in range(d)], [P.var(f"b{k}") for k in range(d)], d, w, c == 3)
    # corner nodes: a free point, and two others at free offsets from it
    cells = {}
    for k in range(3):
        for i, nm in ((1, "a"), (2, "b")):
            cells[3 * i + k] = P.var(f"n[{k}]") + P.var(f"{nm}{k}")
    a, b = [P.var(f"a{k}") for k in range(3)], [P.var(f"b{k}") for k in range(3)]
    for f, nm in (("w_T4", "linear tetrahedron"), ("w_T10", "quadratic tetrahedron")):
        with chk.guard(nm):
            got, w = call(f, "n", 9, cells)
            frame_obs(chk, nm + " frame", got, a, b, 3, w, True)
    for f, nm in (("w_N3", "linear triangle"), ("w_N6", "quadratic triangle")):
        with chk.guard(nm):
            got, w = call(f, "n", 3, cells)
            want = unit(cross(a, b))
            for k in range(3):
                chk.equal(nm, f"normal()[{k}] is the unit right-hand normal of the corner nodes", got[k], want[k], w)


def frame_obs(chk, subj, got, d1, d2, d, w, solid):
    cols = [[got[r * d + c] for r in range(d)] for c in range(d)]
    u = unit(d1)
    want = [u, unit(d2)]
    if d == 3:
        n = unit(cross(d1, d2))
        want.append(n)
        if solid:
            want[1] = cross(n, u)
    what = ["first axis points along the first local axis", "second axis " + ("completes the right-handed orthonormal frame" if solid else "points along the second local axis"),
            "third axis is the right-hand normal of the first two"]
    for c in range(d):
        for r in range(d):
            chk.equal(subj, f"{what[c]} (component {r})", cols[c][r], want[c][r], w)


RULE = ("abstract value of each frame entry with the element mapping uninterpreted, compared with the normalised axis vectors it must equal "
        "(first axis along the first local direction, right-handed, unit, orthogonal for solids)")
ASSUMPTIONS = ["exact real arithmetic", "the axis vectors are not degenerate (non-zero and not collinear)"]
