"""C12: deformation gradient and symmetric fourth-order tensors."""
from engine import build, poly as P

SRC = '''
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Caribou/Algebra/Tensor.h>
using namespace caribou;
template <int N, int D, int O> void f(const double * n, const double * u, double * o) {
    namespace S = caribou::mechanics::elasticity::strain;
    S::Matrix<N, D, O> dN, U;
    for (int i = 0; i < N; ++i) for (int j = 0; j < D; ++j) { dN(i,j) = n[i*D+j]; U(i,j) = u[i*D+j]; }
    const S::Matrix<D, D> F = S::F<N, D, O>(dN, U);
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) o[i*D+j] = F(i,j);
}
#define W(N, D) extern "C" void w_F_##N##_##D(const double * n, const double * u, double * o) { f<N, D, 0>(n, u, o); }
#define V(N, D) extern "C" void w_FR_##N##_##D(const double * n, const double * u, double * o) { f<N, D, Eigen::RowMajor>(n, u, o); }
FS
template <int O> Eigen::Matrix<double, 3, 3, O> m3(const double * a) { Eigen::Matrix<double, 3, 3, O> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i,j) = a[3*i+j]; return m; }
template <class M> void p6(const M & m, double * o) { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) o[6*i+j] = m(i,j); }
extern "C" void w_d1(const double * a, double * o) { p6(algebra::symmetric_dyad_1(m3<0>(a)), o); }
extern "C" void w_d2(const double * a, double * o) { p6(algebra::symmetric_dyad_2(m3<0>(a)), o); }
extern "C" void w_d1R(const double * a, double * o) { p6(algebra::symmetric_dyad_1(m3<1>(a)), o); }
extern "C" void w_d2R(const double * a, double * o) { p6(algebra::symmetric_dyad_2(m3<1>(a)), o); }
'''
# the node counts of the elements, per dimension
SIZES = [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (6, 2), (8, 2), (2, 3), (3, 3), (4, 3), (6, 3), (8, 3), (10, 3), (20, 3)]
VOIGT = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def sym(name="a"):
    return [[P.var(f"{name}{min(i, j)}{max(i, j)}") for j in range(3)] for i in range(3)]


def cells(a):
    return {3 * i + j: a[i][j] for i in range(3) for j in range(3)}


def run(chk):
    bc = build.compile_source(SRC.replace("FS", "\n".join(f"W({n}, {d})" + (f" V({n}, {d})" if d > 1 else "") for n, d in SIZES)), "c12")
    for n, d in SIZES:
        for r, lay in (("", "column-major"), ("R", "row-major")):
            if r and d == 1:
                continue
            subj = f"F, {n} nodes in {d}D, {lay}"
            with chk.guard(subj):
                got, _, w, _, _ = chk.eval(bc, f"w_F{r}_{n}_{d}", ["dN", "u"], d * d)
                for i in range(d):
                    for j in range(d):
                        want = P.K(int(i == j))
                        for k in range(n):
                            want = want + P.var(f"u[{k * d + i}]") * P.var(f"dN[{k * d + j}]")
                        chk.equal(subj, f"F({i},{j}) = delta + sum_k u_k[{i}] dN_k/dx[{j}]", got[i * d + j], want, w)
    a = sym()
    for f, what in (("w_d1", "a_ij a_kl"), ("w_d2", "(a_ik a_jl + a_il a_jk) / 2")):
        for r in ("", "R"):
            subj = ("symmetric_dyad_1" if "1" in f else "symmetric_dyad_2") + (" row-major" if r else "")
            with chk.guard(subj):
                got, _, w, _, _ = chk.eval(bc, f + r, [("a", cells(a))], 36)
                for x, (i, j) in enumerate(VOIGT):
                    for y, (k, l) in enumerate(VOIGT):
                        want = a[i][j] * a[k][l] if "1" in f else (a[i][k] * a[j][l] + a[i][l] * a[j][k]).scale(P.Fraction(1, 2))
                        chk.equal(subj, f"entry ({x},{y}) is {what} for ij={i}{j}, kl={k}{l}", got[6 * x + y], want, w)


RULE = ("dataflow over the LLVM IR of strain::F and the symmetric dyads gives each entry as a polynomial of the inputs, which must be the "
        "documented one (F = I + sum u_k x grad N_k; Voigt order 00, 11, 22, 01, 12, 02)")
ASSUMPTIONS = ["exact real arithmetic", "dyads: the argument is symmetric, as documented"]
