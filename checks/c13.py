"""C13: stress is the derivative of the strain energy, tangent the derivative of the stress."""
import os
import re

from engine import build, poly as P
from checks.c12 import VOIGT, cells, sym

SRC = '''
#include <cmath>
#include <string>
#include <Eigen/Eigen>
#include <Caribou/Algebra/Tensor.h>
#include <sofa/core/objectmodel/BaseObject.h>
#define private public
#include <SofaCaribou/Material/@.h>
#undef private
struct Vec3 { static constexpr int spatial_dimensions = 3; struct Coord { using value_type = double; }; static std::string Name() { return ""; } };
using M = SofaCaribou::material::@<Vec3>;
static Eigen::Matrix3d m3(const double * a) { Eigen::Matrix3d m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i,j) = a[3*i+j]; return m; }
static M make(const double * p) { M m; m.d_young_modulus.setValue(p[0]); m.d_poisson_ratio.setValue(p[1]); m.M::before_update(); return m; }
extern "C" void w_psi(const double * p, const double * J, const double * C, double * o) { const M m = make(p); *o = m.M::strain_energy_density(*J, m3(C)); }
extern "C" void w_S(const double * p, const double * J, const double * C, double * o) { const M m = make(p); const Eigen::Matrix3d S = m.M::PK2_stress(*J, m3(C)); for (int i = 0; i < 9; ++i) o[i] = S(i/3, i%3); }
extern "C" void w_D(const double * p, const double * J, const double * C, double * o) { const M m = make(p); const Eigen::Matrix<double, 6, 6> D = m.M::PK2_stress_jacobian(*J, m3(C)); for (int i = 0; i < 36; ++i) o[i] = D(i/6, i%6); }
'''
STUBS = build.VERIF + "/witness/sofa"


def compile_with_stubs(text, name, stubs=STUBS, extra=()):
    """SOFA headers this check has no stand-in for are taken as empty"""
    extra = ["-I", stubs, *extra]
    gen = os.path.join(build.scratch(), "sofa_missing")
    for root, _, files in os.walk(build.REPO + "/src/SofaCaribou"):
        for f in files:
            if f.endswith((".h", ".inl", ".cpp")):
                for h in re.findall(r"#\s*include\s*<((?:sofa/|Sofa(?!Caribou))[^>]*)>", open(os.path.join(root, f), errors="replace").read()):
                    p = os.path.join(gen, h)
                    if not os.path.exists(os.path.join(stubs, h)) and not os.path.exists(p):
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        open(p, "w").write("#pragma once\n")
    extra += ["-I", gen]
    for _ in range(60):
        try:
            return build.compile_source(text, name, extra=extra)
        except build.CompileError as e:
            m = re.search(r"fatal error: '((?:sofa|Sofa)[^']*)' file not found", str(e))
            if not m or m.group(1).startswith("SofaCaribou"):
                raise
            p = os.path.join(gen, m.group(1))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("#pragma once\n")
    raise build.CompileError("too many missing SOFA headers")


def total(p, c, dJ, Jat):
    """d p / d c along J = sqrt(det C)"""
    return P.diff(p, c) + P.diff(p, Jat) * dJ


def at1(v):
    return next(iter(P.support(v)))


def run(chk):
    P.CANCEL[0] = True
    C = sym("c")
    E, nu, J = P.var("young", lo=0), P.var("poisson"), P.var("J[0]")
    det = (C[0][0] * (C[1][1] * C[2][2] - C[1][2] * C[1][2]) - C[0][1] * (C[0][1] * C[2][2] - C[1][2] * C[0][2])
           + C[0][2] * (C[0][1] * C[1][2] - C[1][1] * C[0][2]))
    half = P.Fraction(1, 2)
    for mat in ("SaintVenantKirchhoffMaterial", "NeoHookeanMaterial"):
        if not os.path.exists(f"{build.REPO}/src/SofaCaribou/Material/{mat}.h"):
            continue
        bc = compile_with_stubs(SRC.replace("@", mat), "c13_" + mat)
        inp = [("p", {0: E, 1: nu}), "J", ("C", cells(C))]
        with chk.guard(mat):
            psi, _, w0, _, _ = chk.eval(bc, "w_psi", inp, 1)
            S, _, w1, _, _ = chk.eval(bc, "w_S", inp, 9)
            D, _, w2, _, _ = chk.eval(bc, "w_D", inp, 36)
            psi = psi[0]
            deriv = {}
            for y, (k, l) in enumerate(VOIGT):
                c = at1(C[k][l])
                dJ = J * P.diff(det, c) * P.inv(det).scale(half)
                deriv[y] = (c, dJ)
            for y, (k, l) in enumerate(VOIGT):
                want = total(psi, *deriv[y], at1(J)).scale(2 if k == l else 1)
                for i, j in {(k, l), (l, k)}:
                    chk.equal(mat, f"S({i},{j}) = 2 d psi / d C({i},{j})", S[3 * i + j], want, w1)
            for x, (i, j) in enumerate(VOIGT):
                for y, (k, l) in enumerate(VOIGT):
                    want = total(S[3 * i + j], *deriv[y], at1(J)).scale(2 if k == l else 1)
                    chk.equal(mat, f"D({x},{y}) = 2 d S({i},{j}) / d C({k},{l})", D[6 * x + y], want, w2)
            # no stress and no energy at rest; small-strain moduli are Lame's
            rest = {at1(C[i][j]): P.K(int(i == j)) for i in range(3) for j in range(3)}
            rest[at1(J)] = P.ONE
            mu = E * P.inv((P.ONE + nu).scale(2))
            la = E * nu * P.inv((P.ONE + nu) * (P.ONE - nu.scale(2)))
            chk.equal(mat, "no energy at rest", P.subst(psi, rest), P.ZERO, w0)
            for i in range(9):
                chk.equal(mat, f"no stress at rest ({i // 3},{i % 3})", P.subst(S[i], rest), P.ZERO, w1)
            for x, (i, j) in enumerate(VOIGT):
                for y, (k, l) in enumerate(VOIGT):
                    d = lambda a, b: int(a == b)
                    want = la.scale(d(i, j) * d(k, l)) + mu.scale(d(i, k) * d(j, l) + d(i, l) * d(j, k))
                    chk.equal(mat, f"elastic moduli at rest ({x},{y})", P.subst(D[6 * x + y], rest), want, w2)


RULE = ("dataflow over the LLVM IR of the hyperelastic materials gives energy, stress and tangent as rational functions of C, log(J) and the moduli; the "
        "stress must be the formal derivative 2 d psi/dC (J = sqrt(det C)) and the tangent 2 dS/dC in the Voigt order 00, 11, 22, 01, 12, 02")
ASSUMPTIONS = ["exact real arithmetic", "C symmetric and invertible", "stand-ins for the SOFA headers (SOFA is not installed)"]
