"""C22: the hyperelastic force field integrates the material's stress, and its stiffness is the derivative of that force."""
from engine import absint as A, build, poly as P
from checks.c13 import compile_with_stubs
from checks.c14 import arr

SRC = '''
#include <Eigen/Eigen>
#include <sofa_all.hpp>
#include <cmath>
#define private public
#define protected public
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#undef private
#undef protected
using namespace caribou; using namespace caribou::geometry; using namespace SofaCaribou;
typedef long long I; typedef sofa::defaulttype::Vec3Types V3;
extern "C" { void op_S(double J, const double * C, double * S); void op_D(double J, const double * C, double * D); double op_psi(double J, const double * C); void op_update(); }
struct Mat : public material::HyperelasticMaterial<V3> {
    void before_update() override { op_update(); }
    double strain_energy_density(const double & J, const Eigen::Matrix3d & C) const override { double c[9]; for (int i = 0; i < 9; ++i) c[i] = C(i/3, i%3); return op_psi(J, c); }
    Eigen::Matrix3d PK2_stress(const double & J, const Eigen::Matrix3d & C) const override { double c[9], s[9]; for (int i = 0; i < 9; ++i) c[i] = C(i/3, i%3); op_S(J, c, s); Eigen::Matrix3d S; for (int i = 0; i < 9; ++i) S(i/3, i%3) = s[i]; return S; }
    Eigen::Matrix<double, 6, 6> PK2_stress_jacobian(const double & J, const Eigen::Matrix3d & C) const override { double c[9], s[36]; for (int i = 0; i < 9; ++i) c[i] = C(i/3, i%3); op_D(J, c, s); Eigen::Matrix<double, 6, 6> D; for (int i = 0; i < 36; ++i) D(i/6, i%6) = s[i]; return D; }
};
template <class E> struct Scene {
    using T = SofaCaribou::topology::CaribouTopology<E>; using F = forcefield::HyperelasticForcefield<E>;
    sofa::core::behavior::MechanicalState<V3> ms; Mat mat; std::vector<unsigned int> idx; std::unique_ptr<caribou::topology::Mesh<3>> mesh; T topo; F ff; sofa::core::MechanicalParams mp;
    Scene(I nn, I ne, const I * ix, const double * x0, const double * x) {
        ms.pos.value.resize(nn); ms.rest.value.resize(nn);
        for (I i = 0; i < nn; ++i) for (int k = 0; k < 3; ++k) { ms.pos.value[i][k] = x[3*i+k]; ms.rest.value[i][k] = x0[3*i+k]; }
        constexpr int N = traits<E>::NumberOfNodesAtCompileTime; std::vector<typename caribou::topology::Mesh<3>::WorldCoordinates> ps(nn); for (I i = 0; i < nn; ++i) for (int k = 0; k < 3; ++k) ps[i][k] = x0[3*i+k];
        idx.resize(N * ne); for (I e = 0; e < N * ne; ++e) idx[e] = ix[e]; mesh.reset(new caribou::topology::Mesh<3>(ps)); topo.attachDomain(mesh->template add_domain<E, unsigned int>(std::string("d"), (const unsigned int *) idx.data(), (Eigen::Index) ne, (Eigen::Index) N)); ff.p_topology = &topo; ff.mstate.p = &ms; ff.d_material.set(&mat); ff.initialize_elements();
    }
    void force(double * f) { sofa::core::objectmodel::Data<typename V3::VecDeriv> df, dv; df.value.resize(ms.pos.value.size()); for (I i = 0; i < (I) df.value.size(); ++i) for (int k = 0; k < 3; ++k) df.value[i][k] = f[3*i+k]; ff.addForce(&mp, df, ms.pos, dv); for (I i = 0; i < (I) df.value.size(); ++i) for (int k = 0; k < 3; ++k) f[3*i+k] = df.value[i][k]; }
    void dforce(double * f, const double * dx, double k) { mp.k = k; sofa::core::objectmodel::Data<typename V3::VecDeriv> df, ddx; df.value.resize(ms.pos.value.size()); ddx.value.resize(ms.pos.value.size()); for (I i = 0; i < (I) df.value.size(); ++i) for (int c = 0; c < 3; ++c) { df.value[i][c] = f[3*i+c]; ddx.value[i][c] = dx[3*i+c]; } ff.addDForce(&mp, df, ddx); for (I i = 0; i < (I) df.value.size(); ++i) for (int c = 0; c < 3; ++c) f[3*i+c] = df.value[i][c]; }
};
struct Dense : public sofa::defaulttype::BaseMatrix { double * d; I n, m; Dense(double * d, I n, I m) : d(d), n(n), m(m) {} Index rowSize() const override { return n; } Index colSize() const override { return m; } Real element(Index i, Index j) const override { return d[i*m+j]; } void resize(Index, Index) override {} void clear() override {} void set(Index i, Index j, double v) override { d[i*m+j] = v; } void add(Index i, Index j, double v) override { d[i*m+j] += v; } };
#define FF(n, E) \\
extern "C" void f_##n(I nn, I ne, const I * ix, const double * x0, const double * x, const double * f0, double * o) { Scene<E> s(nn, ne, ix, x0, x); for (I i = 0; i < 3*nn; ++i) o[i] = f0[i]; s.force(o); } \\
extern "C" void w_##n(I nn, I ne, const I * ix, const double * x0, const double * x, double * o) { Scene<E> s(nn, ne, ix, x0, x); *o = s.ff.getPotentialEnergy(&s.mp, s.ms.pos); } \\
extern "C" void k_##n(I nn, I ne, const I * ix, const double * x0, const double * x, double * o) { Scene<E> s(nn, ne, ix, x0, x); s.ff.assemble_stiffness(); const auto K = s.ff.K(); for (I i = 0; i < 3*nn; ++i) for (I j = 0; j < 3*nn; ++j) o[3*nn*i+j] = K.coeff(i, j); } \\
extern "C" void m_##n(I nn, I ne, const I * ix, const double * x0, const double * x, double k, double * o) { Scene<E> s(nn, ne, ix, x0, x); Dense d(o, 3*nn+2, 3*nn+2); for (I i = 0; i < (3*nn+2)*(3*nn+2); ++i) o[i] = 0; unsigned int off = 2; s.ff.addKToMatrix(&d, k, off); } \\
extern "C" void d_##n(I nn, I ne, const I * ix, const double * x0, const double * x, const double * y, const double * f0, const double * dx, double k, double * o) { Scene<E> s(nn, ne, ix, x0, y); double t[96]; for (I i = 0; i < 3*nn; ++i) { o[i] = f0[i]; t[i] = 0; } s.ff.assemble_stiffness(); for (I i = 0; i < nn; ++i) for (int c = 0; c < 3; ++c) s.ms.pos.value[i][c] = x[3*i+c]; s.force(t); s.dforce(o, dx, k); }
#define GG(n, E) extern "C" void g_##n(double * o) { const E e; for (const auto & g : e.gauss_nodes()) { *o++ = g.weight; const auto d = e.dL(g.position); for (int i = 0; i < d.rows(); ++i) for (int k = 0; k < 3; ++k) *o++ = d(i, k); } }
GG(T4, Tetrahedron<Linear>) GG(T10, Tetrahedron<Quadratic>) GG(H8, Hexahedron<Linear>)
FF(T4, Tetrahedron<Linear>) FF(T10, Tetrahedron<Quadratic>) FF(H8, Hexahedron<Linear>)
'''



VO = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
VI = {p: i for i, p in enumerate(VO)} | {(b, a): i for i, (a, b) in enumerate(VO)}
NG = {"T4": (4, 1), "T10": (10, 4), "H8": (8, 8)}
EL = {"T4": "Tetrahedron<Linear>", "T10": "Tetrahedron<Quadratic>", "H8": "Hexahedron<Linear>"}
T4X = [(0, 0, 0), (2, 0.25, 0), (0.5, 1.5, 0.25), (0.25, 0.5, 1.75), (1.5, 1.75, 1.5)]
T10X = [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1.5), (1, 0, 0.125), (1, 0.5, 0), (0, 0.5, 0.0625), (0, 0, 0.75), (1, 0.0625, 0.75), (0, 0.5, 0.75)]
H8X = [(0, 0, 0), (1.5, 0, 0.25), (1.25, 1, 0), (0, 1.25, 0), (0, 0.125, 1), (1.5, 0, 1.25), (1.75, 1.5, 1.5), (0.25, 1, 1)]
SCENES = [("T4", "one element", T4X[:4], [[0, 1, 2, 3]]), ("T4", "two elements sharing a face, numbered differently", T4X, [[0, 1, 2, 3], [4, 3, 2, 1]]), ("T4", "inverted element", T4X[:4], [[1, 0, 2, 3]]),
          ("T4", "elements without common node order", T4X, [[3, 1, 0, 2], [2, 4, 3, 1]]),
          ("T10", "one element", T10X, [list(range(10))]), ("H8", "one element", H8X, [list(range(8))]), ("H8", "renumbered nodes", [H8X[i] for i in (3, 0, 7, 1, 2, 6, 4, 5)], [[1, 3, 4, 0, 6, 7, 5, 2]])]


def mat(n, m, f):
    return [[f(i, j) for j in range(m)] for i in range(n)]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), P.ZERO) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    return mat(3, 3, lambda i, j: (m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3] - m[(j + 1) % 3][(i + 2) % 3] * m[(j + 2) % 3][(i + 1) % 3]) / d)


class Scene:
    """what the force field must compute, from the quadrature of the element and the definition of the quantities"""

    def __init__(self, gauss, nn, rest, elems, x):
        self.nodes, self.elems, self.x = len(rest), elems, x
        self.pts = []
        for e, el in enumerate(elems):
            for g, (w, dL) in enumerate(gauss):
                J = mat(3, 3, lambda i, j: sum(rest[el[a]][i] * dL[a][j] for a in range(nn)))
                Ji = inv3(J)
                dN = mat(nn, 3, lambda a, k: sum(dL[a][j] * Ji[j][k] for j in range(3)))
                F = mat(3, 3, lambda i, k: sum((x[3 * el[a] + i] * P.K(dN[a][k]) for a in range(nn)), P.ZERO))
                C = mm(tr(F), F)
                tag = f"{e},{g}"
                S = mat(3, 3, lambda i, j: P.var(f"S{VI[i, j]}({tag})"))
                D = mat(6, 6, lambda i, j: P.var(f"D{min(i, j)}{max(i, j)}({tag})"))
                self.pts.append(dict(el=el, w=w * abs(det3(J)), dN=dN, F=F, C=C, J=det3(F), S=S, D=D, psi=P.var(f"psi({tag})")))

    def find(self, J, C):
        for p in self.pts:
            if near(J, p["J"]) and all(near(C[3 * i + j], p["C"][i][j]) for i in range(3) for j in range(3)):
                return p
        return None

    def force(self, f0):
        f = list(f0)
        for p in self.pts:
            FS = mm(p["F"], p["S"])
            for a, n in enumerate(p["el"]):
                for i in range(3):
                    f[3 * n + i] = f[3 * n + i] - sum((FS[i][k] * P.K(p["w"] * p["dN"][a][k]) for k in range(3)), P.ZERO)
        return f

    def energy(self):
        return sum((p["psi"] * P.K(p["w"]) for p in self.pts), P.ZERO)

    def stiffness(self):
        """derivative of the internal force in the positions, with dS = D dE"""
        n3 = 3 * self.nodes
        K = [[P.ZERO] * n3 for _ in range(n3)]
        for p in self.pts:
            F, dN, S, D = p["F"], p["dN"], p["S"], p["D"]
            nn = len(p["el"])
            # dE_mn for a unit displacement of node a along i: (F_im dN_an + F_in dN_am) / 2, shear strains counted twice
            B = [[[F[i][m] * P.K(dN[a][n]) if m == n else F[i][m] * P.K(dN[a][n]) + F[i][n] * P.K(dN[a][m]) for m, n in VO] for i in range(3)] for a in range(nn)]
            DB = [[[sum((D[u][v] * B[b][j][v] for v in range(6)), P.ZERO) for u in range(6)] for j in range(3)] for b in range(nn)]
            for a in range(nn):
                for b in range(nn):
                    geo = sum((S[m][n] * P.K(dN[a][m] * dN[b][n]) for m in range(3) for n in range(3)), P.ZERO)
                    for i in range(3):
                        for j in range(3):
                            v = sum((B[a][i][u] * DB[b][j][u] for u in range(6)), P.ZERO)
                            if i == j:
                                v = v + geo
                            r, c = 3 * p["el"][a] + i, 3 * p["el"][b] + j
                            K[r][c] = K[r][c] + v * P.K(p["w"])
        return K


def near(a, b):
    try:
        return P.is_zero(a - b, 1e-9)
    except Exception:
        return False


def hooks(scene, seen):
    def args(it, st, a, I):
        J = it.num(a[0])
        C = [it.num(it.load(st, it.padd(a[1], 8 * i), it.f64(), I)) for i in range(9)]
        p = scene.find(J, C)
        seen.append((p is not None, it.loc(I), J, C))
        return p

    def fill(it, st, ptr, vals, I):
        for i, v in enumerate(vals):
            it.store(st, it.padd(ptr, 8 * i), v, it.f64(), I)

    def op_S(it, st, a, I, name):
        p = args(it, st, a, I)
        fill(it, st, a[2], [p["S"][i][j] if p else P.var(f"S?{i}{j}") for i in range(3) for j in range(3)], I)

    def op_D(it, st, a, I, name):
        p = args(it, st, a, I)
        fill(it, st, a[2], [p["D"][i][j] if p else P.var(f"D?{i}{j}") for i in range(6) for j in range(6)], I)

    def op_psi(it, st, a, I, name):
        p = args(it, st, a, I)
        return p["psi"] if p else P.var("psi?")

    return {"op_S": op_S, "op_D": op_D, "op_psi": op_psi, "op_update": lambda *a: None}


def run(chk):
    P.CANCEL[0] = True
    bc = compile_with_stubs(SRC, "c22", build.VERIF + "/witness/sofa2")
    chk.module(bc)
    gauss = {}
    for n, (nn, ng) in NG.items():
        vals, *_ = chk.eval(bc, f"g_{n}", [], ng * (1 + 3 * nn))
        v = [float(x.const()) for x in vals]
        s = 1 + 3 * nn
        gauss[n] = [(v[s * g], [v[s * g + 1 + 3 * a:s * g + 4 + 3 * a] for a in range(nn)]) for g in range(ng)]
    jobs = []
    for sc in SCENES:
        for what in ("force", "energy", "stiffness", "assembled matrix", "force differential"):
            jobs.append(lambda sc=sc, what=what: one(chk, bc, gauss, sc, what))
    chk.parallel(jobs)


def one(chk, bc, gauss, sc, what):
    n, nm, rest, elems = sc
    nn, ng = NG[n]
    N = len(rest)
    subj = f"HyperelasticForcefield<{EL[n]}>, {nm}"
    with chk.guard(subj):
        stiff = what not in ("force", "energy")
        if stiff and n != "T4":       # given current positions, arbitrary stress and moduli
            x = [P.K(round((rest[i][k] * (1.25 if k == 0 else 0.875) + 0.125 * rest[i][(k + 1) % 3] * (i % 3)) * 64) / 64) for i in range(N) for k in range(3)]
        else:
            x = [P.var(f"x[{i}]") for i in range(3 * N)]
        s = Scene(gauss[n], nn, rest, elems, x)
        seen = []
        it = chk.interp(bc, hooks=hooks(s, seen))
        head = [P.K(N), P.K(len(elems)), arr("ix", [P.K(v) for e in elems for v in e]), arr("x0", [P.K(v) for r in rest for v in r])]
        fac = P.var("k")
        f0 = [P.var(f"f[{i}]") for i in range(3 * N)]
        if what == "force":
            vals, _, w, it, st = chk.eval(bc, f"f_{n}", head + [arr("x", x), arr("f", f0)], 3 * N, it=it)
            want = s.force(f0)
        elif what == "energy":
            vals, _, w, it, st = chk.eval(bc, f"w_{n}", head + [arr("x", x)], 1, it=it)
            want = [s.energy()]
        elif what == "stiffness":
            vals, _, w, it, st = chk.eval(bc, f"k_{n}", head + [arr("x", x)], 9 * N * N, it=it)
            want = [v for r in s.stiffness() for v in r]
        elif what == "assembled matrix":
            M = 3 * N + 2
            vals, _, w, it, st = chk.eval(bc, f"m_{n}", head + [arr("x", x), fac], M * M, it=it)
            K = s.stiffness()
            want = [P.ZERO if r < 2 or c < 2 else -(K[r - 2][c - 2] * fac) for r in range(M) for c in range(M)]
        else:
            y = [P.var(f"x[{i}]") * P.K(0) + P.K(v) for i, v in enumerate(v for r in rest for v in r)]
            s2 = Scene(gauss[n], nn, rest, elems, y)
            s.pts += s2.pts and [dict(p, S=p["S"], D=p["D"]) for p in stale(s2)]
            pts = s.pts[:len(s.pts) - len(s2.pts)]
            dx = [P.var(f"dx[{i}]") for i in range(3 * N)]
            vals, _, w, it, st = chk.eval(bc, f"d_{n}", head + [arr("x", x), arr("y", y), arr("f", f0), arr("dx", dx), fac], 3 * N, it=it)
            s.pts = pts
            K = s.stiffness()
            want = [f0[i] - sum((K[i][j] * dx[j] for j in range(3 * N)), P.ZERO) * fac for i in range(3 * N)]
        bad = [t for t in seen if not t[0]]
        chk.ob(subj, what + ": the material is evaluated at F'F and det F of the integration points only", not bad, f"evaluated at J = {P.fmt(bad[0][2], 6)[:200]} ({bad[0][1]})" if bad else "", w)
        for i, (a, b) in enumerate(zip(vals, want)):
            chk.equal(subj, f"{what} [{i}]", a, b, w, tol=1e-9)


def stale(s2):
    """the integration points at the positions the stiffness was first assembled at"""
    for k, p in enumerate(s2.pts):
        yield dict(p, S=mat(3, 3, lambda i, j: P.var(f"oldS{VI[i, j]}({k})")), D=mat(6, 6, lambda i, j: P.var(f"oldD{min(i, j)}{max(i, j)}({k})")))


RULE = ("dataflow over the LLVM IR of HyperelasticForcefield with an arbitrary material (its stress, moduli and energy are symbols per integration point): force, energy, stiffness, assembled matrix and force "
        "differential must be the polynomials obtained from the virtual work of the element's own quadrature, the stiffness being the derivative of the force")
ASSUMPTIONS = ["meshes of one or two elements with fixed rest positions; current positions symbolic (fixed for the stiffness of non-linear elements)", "SOFA's interfaces are stand-ins (SOFA is not installed); sequential assembly",
               "stress and moduli are symmetric"]
