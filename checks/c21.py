"""C21: the matrices and vectors handed to SOFA hold the sum of what was put in them."""
import itertools

from engine import absint as A, build, poly as P
from checks.c13 import compile_with_stubs
from checks.c14 import arr
from checks.c18 import same

N, M = 4, 4
SRC = '''
#include <cstring>
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <SofaCaribou/config.h>
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
#include <SofaCaribou/Algebra/BaseVectorOperations.cpp>
using namespace SofaCaribou::Algebra;
typedef long long I;
typedef Eigen::SparseMatrix<double, Eigen::RowMajor> SR; typedef Eigen::SparseMatrix<double, Eigen::ColMajor> SC; typedef Eigen::MatrixXd DC; typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> DR;
template <int K, class S> sofa::type::Mat<K, K, S> block(const double *& x) { sofa::type::Mat<K, K, S> m; for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) m[i][j] = (S) *x++; return m; }
// a history: triples (operation, i, j); values are taken from x in order
template <class W> void apply(W & m, const I * h, const double * x) {
    for (; *h; h += 3) { const int i = h[1], j = h[2];
        switch (*h) {
            case 1: m.add(i, j, *x++); break;
            case 2: m.set(i, j, *x++); break;
            case 3: m.compress(); break;
            case 4: m.clear(); break;
            case 5: m.resize(i, j); break;
            case 6: m.clearRow(i); break;
            case 7: m.clearRows(i, j); break;
            case 8: m.clearCol(i); break;
            case 9: m.clearCols(i, j); break;
            case 10: m.clearRowCol(i); break;
            case 11: m.add(i, j, block<3, double>(x)); break;
            case 12: m.add(i, j, block<2, float>(x)); break;
            case 13: m.add(i, j, block<2, double>(x)); break;
            case 14: m.add(i, j, block<3, float>(x)); break;
        }
    }
}
template <class W> void see(W & m, double *& o) { m.compress(); *o++ = m.rowSize(); *o++ = m.colSize(); for (int i = 0; i < m.rowSize(); ++i) for (int j = 0; j < m.colSize(); ++j) *o++ = m.element(i, j); }
template <class E> void raw(const E & m, double *& o) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *o++ = m.coeff(i, j); }
template <class E> struct IsSparse { static constexpr bool value = std::is_base_of_v<Eigen::SparseMatrixBase<E>, E>; };
template <class E> void sym(EigenMatrix<E> & m, int s) { if constexpr (IsSparse<std::decay_t<E>>::value) m.set_symmetric(s); }
template <class E> void own(int s, const I * h, const double * x, double * o) { EigenMatrix<E> m(4, 4); if (!IsSparse<E>::value) m.clear(); sym(m, s); sofa::defaulttype::BaseMatrix & b = m; apply(b, h, x); see(b, o); raw(m.matrix(), o); }
// the wrapped matrix has been filled beforehand by Eigen itself
template <class E> void fill(E & e, const I * p, const double *& x) { if constexpr (IsSparse<E>::value) { std::vector<Eigen::Triplet<double>> t; for (; *p; p += 3) t.emplace_back(p[1], p[2], *x++); e.setFromTriplets(t.begin(), t.end()); } else { e.setZero(); for (; *p; p += 3) e(p[1], p[2]) += *x++; } }
template <class E> void copy(int s, const I * p, const I * h, const double * x, double * o) { E e(4, 4); fill(e, p, x); EigenMatrix<E> m(e); sym(m, s); apply(m, h, x); see(m, o); raw(e, o); }
template <class E> void ref(int s, const I * p, const I * h, const double * x, double * o) { E e(4, 4); fill(e, p, x); EigenMatrix<E &> m(e); sym(m, s); apply(m, h, x); see(m, o); raw(e, o); }
#define T(n, E) extern "C" void own_##n(int s, const I * h, const double * x, double * o) { own<E>(s, h, x, o); } extern "C" void copy_##n(int s, const I * p, const I * h, const double * x, double * o) { copy<E>(s, p, h, x, o); } extern "C" void ref_##n(int s, const I * p, const I * h, const double * x, double * o) { ref<E>(s, p, h, x, o); }
T(SR, SR) T(SC, SC) T(DC, DC) T(DR, DR)
template <class V> void vec(V & v, const I * h, const double * x, double *& o) {
    for (; *h; h += 2) { const int i = h[1]; switch (*h) { case 1: v.add(i, *x++); break; case 2: v.set(i, *x++); break; case 3: v.clear(); break; case 4: v.resize(i); break; } }
    *o++ = v.size(); for (int i = 0; i < v.size(); ++i) *o++ = v.element(i);
}
template <class E> void vown(const I * h, const double * x, double * o) { EigenVector<E> v(3); v.clear(); sofa::defaulttype::BaseVector & b = v; vec(b, h, x, o); const auto & w = v.vector(); for (int i = 0; i < w.size(); ++i) *o++ = w[i]; }
template <class E> void vref(const I * h, const double * x, double * o) { E e(3); for (int i = 0; i < 3; ++i) e[i] = *x++; EigenVector<E &> v(e); vec(v, h, x, o); for (int i = 0; i < e.size(); ++i) *o++ = e[i]; }
template <class E> void vcopy(const I * h, const double * x, double * o) { E e(3); for (int i = 0; i < 3; ++i) e[i] = *x++; EigenVector<E> v(e); vec(v, h, x, o); for (int i = 0; i < e.size(); ++i) *o++ = e[i]; }
#define U(n, E) extern "C" void vown_##n(const I * h, const double * x, double * o) { vown<E>(h, x, o); } extern "C" void vref_##n(const I * h, const double * x, double * o) { vref<E>(h, x, o); } extern "C" void vcopy_##n(const I * h, const double * x, double * o) { vcopy<E>(h, x, o); }
U(VD, Eigen::VectorXd) U(VF, Eigen::VectorXf)
using sofa::component::linearsolver::FullVector;
struct Own : public sofa::defaulttype::BaseVector { const double * d; Own(const double * d) : d(d) {} Index size() const override { return 3; } SReal element(Index i) const override { return d[i]; } void resize(Index) override {} void clear() override {} void set(Index, SReal) override {} void add(Index, SReal) override {} };
template <int K> struct Mk; template <> struct Mk<0> { double b[3]; FullVector<double> v; Mk(const double * x) : v(b, 3) { for (int i = 0; i < 3; ++i) b[i] = x[i]; } };
template <> struct Mk<1> { float b[3]; FullVector<float> v; Mk(const double * x) : v(b, 3) { for (int i = 0; i < 3; ++i) b[i] = x[i]; } };
template <> struct Mk<2> { Own v; Mk(const double * x) : v(x) {} }; template <> struct Mk<3> { Eigen::VectorXd e; EigenVector<Eigen::VectorXd &> v; Mk(const double * x) : e(3), v(e) { for (int i = 0; i < 3; ++i) e[i] = x[i]; } };
template <int A, int B> void d(const double * a, const double * b, double * o) { Mk<A> u(a); Mk<B> w(b); *o = dot(&u.v, &w.v); }
#define D(a, b) extern "C" void dot_##a##_##b(const double * x, const double * y, double * o) { d<a, b>(x, y, o); }
D(0,0) D(0,1) D(0,2) D(0,3) D(1,0) D(1,1) D(1,2) D(1,3) D(2,0) D(2,1) D(2,2) D(2,3) D(3,0) D(3,1) D(3,2) D(3,3)
'''
KIND = {"SR": "row major sparse matrix", "SC": "column major sparse matrix", "DC": "dense matrix", "DR": "row major dense matrix"}
NAME = {1: "add({},{})", 2: "set({},{})", 3: "compress", 4: "clear", 5: "resize({},{})", 6: "clearRow({})", 7: "clearRows({},{})", 8: "clearCol({})", 9: "clearCols({},{})", 10: "clearRowCol({})",
        11: "add 3x3 at ({},{})", 12: "add 2x2 float at ({},{})", 13: "add 2x2 at ({},{})", 14: "add 3x3 float at ({},{})"}
BLOCK = {11: 3, 12: 2, 13: 2, 14: 3}
# what the matrix is built from
BASES = {"empty": [], "tridiagonal": [(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (1, 3, 2), (1, 2, 3), (1, 3, 3)],
         "unordered with duplicates": [(1, 3, 1), (1, 0, 3), (1, 2, 2), (1, 3, 1), (1, 0, 0), (1, 3, 3), (1, 0, 3), (1, 1, 0), (1, 3, 1)],
         "blocks": [(11, 0, 0), (12, 2, 1), (13, 1, 2), (14, 1, 1)], "one column": [(1, 0, 2), (1, 1, 2), (1, 3, 2)], "one row": [(1, 1, 3), (1, 1, 0), (1, 1, 1)]}
STEPS = [(1, 1, 1), (1, 3, 0), (1, 0, 2), (2, 2, 2), (2, 0, 3), (2, 2, 0), (3, 0, 0), (4, 0, 0), (5, 4, 4), (5, 2, 3), (6, 1, 0), (6, 3, 0), (7, 1, 2), (7, 0, 3), (8, 0, 0), (8, 2, 0), (9, 1, 2), (9, 2, 3), (10, 1, 0), (10, 3, 0), (10, 0, 0), (12, 1, 2), (11, 1, 0)]


def model(h, x, start=None):
    """the dense matrix a history must give; None when it leaves the matrix"""
    m = start or [[P.ZERO] * M for _ in range(N)]
    m = [r[:] for r in m]
    x = list(x)
    for op, i, j in h:
        r, c = len(m), len(m[0])
        if op in (1, 2):
            v = x.pop(0)
            if i >= r or j >= c:
                return None
            m[i][j] = m[i][j] + v if op == 1 else v
        elif op in BLOCK:
            k = BLOCK[op]
            if i + k > r or j + k > c:
                return None
            for a in range(k):
                for b in range(k):
                    m[i + a][j + b] = m[i + a][j + b] + x.pop(0)
        elif op == 4:
            m = [[P.ZERO] * c for _ in range(r)]
        elif op == 5:
            m = [[P.ZERO] * j for _ in range(i)]
        elif op in (6, 7, 8, 9, 10):
            lo, hi = (i, j) if op in (7, 9) else (i, i)
            if hi >= (r if op in (6, 7, 10) else c) or (op == 10 and hi >= c):
                return None
            for a in range(r):
                for b in range(c):
                    if (op in (6, 7, 10) and lo <= a <= hi) or (op in (8, 9, 10) and lo <= b <= hi):
                        m[a][b] = P.ZERO
    return m


def values(h):
    return sum(1 if op in (1, 2) else BLOCK.get(op, 0) ** 2 for op, _, _ in h)


def ints(name, xs):
    return arr(name, [P.K(v) for v in xs])


def flat(h):
    return [v for t in h for v in t] + [0, 0, 0]


def symmetric(h, n):
    """structurally: an entry (i, j) exists with (j, i) at every clearRowCol"""
    s = set()
    for op, i, j in h:
        if op in (1, 2):
            s.add((i, j))
        elif op in BLOCK:
            s |= {(i + a, j + b) for a in range(BLOCK[op]) for b in range(BLOCK[op])}
        elif op in (4, 5):
            s = set()
        elif op == 10 and any((b, a) not in s for a, b in s):
            return False
        if op == 5:
            n = (i, j)
    return True


def text(h):
    return "; ".join(NAME[op].format(i, j) for op, i, j in h)


def histories(deep):
    for bn, b in BASES.items():
        yield bn, b, ()
        for s in STEPS:
            yield bn, b, (s,)
        for s, t in itertools.product(STEPS, STEPS):
            # reading, assembling again or clearing after the matrix has changed structure
            if deep or bn == "tridiagonal" or (bn == "unordered with duplicates" and s[0] in (1, 2, 3, 4, 5, 12)):
                yield bn, b, (s, t)
    for bn in ("tridiagonal", "unordered with duplicates", "empty"):
        for s in ((1, 3, 0), (2, 2, 0), (12, 1, 2), (1, 1, 1)):
            for t in STEPS:
                yield bn, BASES[bn], ((3, 0, 0), s, t)
                yield bn, BASES[bn], ((3, 0, 0), s, (1, 0, 2), t)
                yield bn, BASES[bn], (t, (4, 0, 0), s, (3, 0, 0))


def run(chk):
    A.UNROLL[0] = 0
    A.NARROW["float"] = False      # matrices of float are instantiated here: rounding to their type is their contract
    P.CANCEL[0] = True
    bc = compile_with_stubs(SRC, "c21")
    chk.module(bc)
    jobs = []
    hs = list(dict.fromkeys((bn, tuple(b), t) for bn, b, t in histories(chk.tier == "thorough")))
    step = 24
    for n in KIND:
        for k in range(0, len(hs), step):
            jobs.append(lambda n=n, part=hs[k:k + step]: [own(chk, bc, n, *h) for h in part])
        jobs.append(lambda n=n: wrapped(chk, bc, n))
    jobs.append(lambda: vectors(chk, bc))
    jobs.append(lambda: dots(chk, bc))
    chk.parallel(jobs)


def own(chk, bc, n, bn, b, steps):
    h = list(b) + list(steps)
    nv = values(h)
    x = [P.var(f"x[{i}]") for i in range(nv)]
    m = model(h, x)
    if m is None:
        return
    e = [v for r in m for v in r]
    want = [P.K(len(m)), P.K(len(m[0]))] + e + e
    subj = f"{KIND[n]}, {bn}"
    for s in ((0, 1) if n in ("SR", "SC") and any(t[0] == 10 for t in h) and symmetric(h, (N, M)) else (0,)):
        with chk.guard(subj):
            vals, _, w, it, st = chk.eval(bc, f"own_{n}", [P.K(s), ints("h", flat(h)), arr("x", x or [P.ZERO])], len(want))
            same(chk, subj, (text(steps) or "as built") + (" (declared symmetric)" if s else ""), vals, want, w)
            memory(chk, subj, text(steps), it, w)


def memory(chk, subj, rule, it, w):
    chk.ob(subj, rule + ": no memory outside the matrix is used", not it.memory_errors, "; ".join(f"{a} at {b}" for a, b in it.memory_errors[:3]), w)


def wrapped(chk, bc, n):
    for bn in ("empty", "tridiagonal", "unordered with duplicates"):
        b = BASES[bn]
        for steps in [()] + [(s,) for s in STEPS] + [((1, 3, 0), s) for s in STEPS] + [((3, 0, 0), (1, 3, 0), s) for s in STEPS]:
            nb, ns = values(b), values(steps)
            x = [P.var(f"x[{i}]") for i in range(nb + ns)]
            start = model(b, x[:nb])
            m = model(steps, x[nb:], start)
            if m is None:
                continue
            for kind in ("ref", "copy"):
                subj = f"{KIND[n]} wrapped by {'reference' if kind == 'ref' else 'copy'}, {bn}"
                with chk.guard(subj):
                    e = [v for r in m for v in r]
                    under = e if kind == "ref" else [v for r in start for v in r]
                    want = [P.K(len(m)), P.K(len(m[0]))] + e + under
                    vals, _, w, it, st = chk.eval(bc, f"{kind}_{n}", [P.K(0), ints("p", flat(b)), ints("h", flat(steps)), arr("x", x or [P.ZERO])], len(want))
                    same(chk, subj, text(steps) or "as given", vals, want, w)
                    memory(chk, subj, text(steps), it, w)


VSTEPS = [(1, 0), (1, 2), (2, 1), (3, 0), (4, 5), (4, 2)]


def vectors(chk, bc):
    for n, nm in (("VD", "vector of doubles"), ("VF", "vector of floats")):
        for k in range(4):
            for h in itertools.product(VSTEPS, repeat=k):
                for kind in ("vown", "vref", "vcopy"):
                    z = 0 if kind == "vown" else 3
                    x = [P.var(f"x[{i}]") for i in range(z + sum(op in (1, 2) for op, _ in h))]
                    m = list(x[:3]) if z else [P.ZERO] * 3
                    first, rest, ok = list(m), list(x[z:]), True
                    for op, i in h:
                        if op in (1, 2):
                            v = rest.pop(0)
                            if i >= len(m):
                                ok = False
                                break
                            m[i] = m[i] + v if op == 1 else v
                        else:
                            m = [P.ZERO] * (len(m) if op == 3 else i)
                    if not ok:
                        continue
                    subj = f"{nm} {dict(vown='owned', vref='wrapped by reference', vcopy='wrapped by copy')[kind]}"
                    with chk.guard(subj):
                        want = [P.K(len(m))] + m + (first if kind == "vcopy" else m)
                        hh = [v for t in h for v in t] + [0, 0]
                        vals, _, w, it, st = chk.eval(bc, f"{kind}_{n}", [ints("h", hh), arr("x", x or [P.ZERO])], len(want))
                        same(chk, subj, "; ".join({1: "add", 2: "set", 3: "clear", 4: "resize"}[op] + f"({i})" for op, i in h) or "as given", vals, want, w)


def dots(chk, bc):
    V = ["FullVector<double>", "FullVector<float>", "another BaseVector", "EigenVector"]
    for a in range(4):
        for b in range(4):
            subj = f"dot({V[a]}, {V[b]})"
            with chk.guard(subj):
                x, y = [P.var(f"x[{i}]") for i in range(3)], [P.var(f"y[{i}]") for i in range(3)]
                vals, _, w, it, st = chk.eval(bc, f"dot_{a}_{b}", [arr("x", x), arr("y", y)], 1)
                same(chk, subj, "sum of the products of the coefficients", vals, [sum((p * q for p, q in zip(x, y)), P.ZERO)], w)


RULE = ("dataflow over the LLVM IR of EigenMatrix, EigenVector and dot with Eigen's sparse storage tracked as memory: for every listed history of assembly, assignment, clearing and resizing, with "
        "symbolic values, each entry read back must be the polynomial the same history gives on a plain table of numbers")
ASSUMPTIONS = ["4x4 matrices; histories are the listed bases followed by up to two (quick) further operations, and those on compressed matrices", "Eigen's containers as compiled from their headers",
               "SOFA's BaseMatrix and BaseVector interfaces are stand-ins (SOFA is not installed)"]
