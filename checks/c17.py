"""C17: embedding points in a domain and interpolating fields onto them."""
import itertools

from engine import absint as A, build, num, poly as P
from checks.c14 import arr
from checks import c15

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Element.h>
#include <Caribou/Topology/HashGrid.h>
#include <sstream>
#include <stdexcept>
#include <cmath>
typedef long long I;
extern "C" {
I op_count(); I op_nodes(); double op_node(I e, I n, int k); double op_local(I e, double x, double y, double z, int k); bool op_contains(I e, double u, double v, double w);
double op_shape(I e, double u, double v, double w, I n); I op_index(I e, I n); double op_field(I i, I j); void op_add(I e, I id); void op_cellsize(double h); I op_candidates(); I op_candidate(I k, double x, double y, double z);
}
template <int D> struct EM;      // stands for any element type
namespace caribou::geometry { template <int D> struct traits<EM<D>> { static constexpr int Dimension = D; static constexpr int CanonicalDimension = D; static constexpr int NumberOfNodesAtCompileTime = 3; static constexpr int NumberOfGaussNodesAtCompileTime = 1; }; }
template <class V> double at(const V & v, int k) { return k < (int) v.size() ? (double) v[k] : 0.; }
template <int D> struct EM {
    static constexpr int Dimension = D; static constexpr int CanonicalDimension = D; static constexpr int NumberOfNodesAtCompileTime = 3;
    using LocalCoordinates = Eigen::Matrix<double, D, 1>; using WorldCoordinates = Eigen::Matrix<double, D, 1>;
    I e;
    Eigen::Matrix<double, 3, D> nodes() const { Eigen::Matrix<double, 3, D> m; for (int n = 0; n < 3; ++n) for (int k = 0; k < D; ++k) m(n, k) = op_node(e, n, k); return m; }
    WorldCoordinates node(I n) const { WorldCoordinates r; for (int k = 0; k < D; ++k) r[k] = op_node(e, n, k); return r; }
    unsigned long long number_of_nodes() const { return 3; }
    LocalCoordinates local_coordinates(const WorldCoordinates & p) const { LocalCoordinates l; for (int k = 0; k < D; ++k) l[k] = op_local(e, at(p, 0), at(p, 1), at(p, 2), k); return l; }
    bool contains_local(const LocalCoordinates & l) const { return op_contains(e, at(l, 0), at(l, 1), at(l, 2)); }
    bool contains(const WorldCoordinates & p) const { return contains_local(local_coordinates(p)); }
    Eigen::Matrix<double, 3, 1> L(const LocalCoordinates & l) const { Eigen::Matrix<double, 3, 1> r; for (int n = 0; n < 3; ++n) r[n] = op_shape(e, at(l, 0), at(l, 1), at(l, 2), n); return r; }
    template <class M> auto interpolate(const LocalCoordinates & l, const Eigen::MatrixBase<M> & values) const {
        const auto s = L(l);
        if constexpr (M::ColsAtCompileTime == 1) { double r = 0; for (int n = 0; n < 3; ++n) r += s[n] * values(n, 0); return r; }
        else { Eigen::Matrix<double, 1, M::ColsAtCompileTime> r(1, values.cols()); for (int j = 0; j < values.cols(); ++j) { r(0, j) = 0; for (int n = 0; n < 3; ++n) r(0, j) += s[n] * values(n, j); } return r; }
    }
};
struct Candidates { I d[3]; I n; const I * begin() const { return d; } const I * end() const { return d + n; } size_t size() const { return n; } bool empty() const { return n == 0; } };
namespace caribou::topology {
template <int D> class HashGrid<EM<D>> {
public:
    HashGrid(const double & h) { op_cellsize(h); } HashGrid(const double & h, const unsigned long long &) { op_cellsize(h); }
    void add(const EM<D> & e, const unsigned long long & id) { op_add(e.e, id); }
    Candidates get(const Eigen::Matrix<double, D, 1> & p) const { Candidates c; c.n = op_candidates(); for (int k = 0; k < 3; ++k) c.d[k] = op_candidate(k, at(p, 0), at(p, 1), at(p, 2)); return c; }
};
}
#include <Caribou/Topology/Domain.h>
using namespace caribou::topology;
struct MM { unsigned long long number_of_nodes() const { return op_nodes(); } };
template <int D> struct DM {
    using ElementType = EM<D>; static constexpr I Dimension = D; MM m;
    unsigned long long number_of_elements() const { return op_count(); }
    unsigned long long number_of_nodes_per_elements() const { return 3; }
    const MM * mesh() const { return &m; }
    EM<D> element(const unsigned long long & i) const { return EM<D> {(I) i}; }
    Eigen::Matrix<unsigned long long, 3, 1> element_indices(const unsigned long long & i) const { Eigen::Matrix<unsigned long long, 3, 1> r; for (int n = 0; n < 3; ++n) r[n] = op_index(i, n); return r; }
};
struct Field { double operator()(Eigen::Index i, Eigen::Index j) const { return op_field(i, j); } };
template <class B, class P> void dump(const P & b, double * o) { *o++ = b.element_index; for (int k = 0; k < (int) b.local_coordinates.size(); ++k) *o++ = b.local_coordinates[k]; }
template <int D> Eigen::Matrix<double, D, 1> wc(const double * p) { Eigen::Matrix<double, D, 1> r; for (int k = 0; k < D; ++k) r[k] = p[k]; return r; }
template <int D, int R> Eigen::Matrix<double, R, D> pts(const double * p) { Eigen::Matrix<double, R, D> r; for (int i = 0; i < R; ++i) for (int k = 0; k < D; ++k) r(i, k) = p[i * D + k]; return r; }
template <int D, int C> void interp(const double * p, double * o) {
    DM<D> d; const BarycentricContainer<DM<D>> b(&d, pts<D, 2>(p));
    Eigen::Matrix<double, 2, C> out; for (int i = 0; i < 2; ++i) for (int j = 0; j < C; ++j) out(i, j) = o[i * C + j];
    b.interpolate(Eigen::Matrix<double, Eigen::Dynamic, C>::NullaryExpr(op_nodes(), C, Field()), out);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < C; ++j) o[i * C + j] = out(i, j);
}
template <int D> void interpdyn(const double * p, I c, double * o) {
    DM<D> d; const BarycentricContainer<DM<D>> b(&d, pts<D, 2>(p));
    Eigen::Matrix<double, 2, Eigen::Dynamic, 0, 2, 3> out(2, c); for (int i = 0; i < 2; ++i) for (int j = 0; j < c; ++j) out(i, j) = o[i * c + j];
    b.interpolate(Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>::NullaryExpr(op_nodes(), c, Field()), out);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < c; ++j) o[i * c + j] = out(i, j);
}
#define W(D) \\
extern "C" void interp##D##_d(const double * p, I c, double * o) { interpdyn<D>(p, c, o); } \\
extern "C" void build##D() { DM<D> d; BarycentricContainer<DM<D>> b(&d); } \\
extern "C" void point##D(const double * p, double * o) { DM<D> d; const BarycentricContainer<DM<D>> b(&d); const auto r = b.barycentric_point(wc<D>(p)); dump<int>(r, o); } \\
extern "C" void closest##D(const double * p, double * o) { DM<D> d; const BarycentricContainer<DM<D>> b(&d); const auto r = b.closest_elements(wc<D>(p)); *o++ = r.size(); for (size_t i = 0; i < r.size(); ++i) dump<int>(r[i], o + i * (D + 1)); } \\
extern "C" void embed##D(const double * p, double * o) { DM<D> d; const BarycentricContainer<DM<D>> b(&d, pts<D, 2>(p)); const auto & r = b.barycentric_points(); *o++ = r.size(); for (size_t i = 0; i < r.size(); ++i) { dump<int>(r[i], o); o += D + 1; } \\
    const auto & q = b.outside_nodes(); *o++ = q.size(); for (size_t i = 0; i < q.size(); ++i) *o++ = q[i]; } \\
extern "C" void interp##D##_1(const double * p, double * o) { interp<D, 1>(p, o); } \\
extern "C" void interp##D##_3(const double * p, double * o) { interp<D, 3>(p, o); } \\
extern "C" void interpbad##D(const double * p, I rows, I done, double * o) { DM<D> d; const BarycentricContainer<DM<D>> b(&d, pts<D, 2>(p)); Eigen::Matrix<double, Eigen::Dynamic, 1, 0, 3, 1> out(done, 1); \\
    b.interpolate(Eigen::Matrix<double, Eigen::Dynamic, 1>::NullaryExpr(rows, 1, Field()), out); *o = 1; }
W(1) W(2) W(3)
'''


def v(name, *a, **kw):
    return P.var(name + "(" + ",".join(str(x) for x in a) + ")", **kw)


class Model:
    """symbolic domain: the point a is contained in candidate k where contains says so"""
    def __init__(self, chk, bc, ncand, contains, count=2, nodes=7):
        self.ncand, self.contains = ncand, contains
        self.asked, self.columns = set(), set()
        h = {"op_count": lambda it, st, a, I, n: count if isinstance(count, P.Poly) else P.K(count),
             "op_nodes": lambda it, st, a, I, n: P.K(nodes),
             "op_node": lambda it, st, a, I, n: self.asked.add(it.num(a[0])) or P.apoly(P.atom("fn", "node", it.num(a[0]), it.num(a[1]), it.num(a[2]))),
             "op_local": lambda it, st, a, I, n: P.apoly(P.atom("fn", "local", *[it.num(x) for x in a])),
             "op_shape": lambda it, st, a, I, n: P.apoly(P.atom("fn", "shape", *[it.num(x) for x in a])),
             "op_index": lambda it, st, a, I, n: P.apoly(P.atom("fn", "index", it.num(a[0]), it.num(a[1]), isint=True, lo=0)),
             "op_field": lambda it, st, a, I, n: self.columns.add(it.num(a[1])) or P.apoly(P.atom("fn", "field", it.num(a[0]), it.num(a[1]))),
             "op_candidates": lambda it, st, a, I, n: P.K(ncand),
             "op_candidate": lambda it, st, a, I, n: P.apoly(P.atom("fn", "candidate", it.num(a[0]), *[it.num(x) for x in a[1:]], isint=True, lo=0)),
             "op_contains": self.hit, "op_add": self.add, "op_cellsize": self.size}
        h["__cxa_allocate_exception"] = lambda it, st, a, I, n: "dead"          # an exception is thrown
        self.it = chk.interp(bc, hooks=h)
        self.it.prefix_hooks.append(("_ZNSt7__cxx11", lambda it, st, a, I, n: A.UNDEF))     # strings and streams of messages
        self.it.prefix_hooks.append(("_ZNSo", lambda it, st, a, I, n: A.UNDEF))
        self.it.prefix_hooks.append(("_ZSt16__ostream_insert", lambda it, st, a, I, n: A.UNDEF))
        self.it.prefix_hooks.append(("_ZStls", lambda it, st, a, I, n: A.UNDEF))
        self.it.prefix_hooks.append(("_ZNKSt7__cxx11", lambda it, st, a, I, n: A.UNDEF))

    def hit(self, it, st, a, I, n):
        """the candidate of a point contains the point as told, any other element or local point does not"""
        e, l = it.num(a[0]), [it.num(x) for x in a[1:]]
        for key, (cand, loc) in self.truth.items():
            if e == cand and all(x == y for x, y in zip(l, loc)):
                return P.TRUE if self.contains[key] else P.FALSE
        self.stray = f"contains_local asked for element {P.fmt(e, 3)} at {[P.fmt(x, 3) for x in l]}"
        return P.FALSE

    stray = None

    def add(self, it, st, a, I, n):
        st.events = st.events + ((P.TRUE, "push", it.num(a[0]) + P.var("N") * it.num(a[1]), it.loc(I)),)

    def size(self, it, st, a, I, n):
        st.events = st.events + ((P.TRUE, "size", it.num(a[0]), it.loc(I)),)


def coords(p):
    return list(p) + [P.ZERO] * (3 - len(p))


def cand(k, p):
    return P.apoly(P.atom("fn", "candidate", P.K(k), *coords(p), isint=True, lo=0))


def local(e, p, d):
    return [P.apoly(P.atom("fn", "local", e, *coords(p), P.K(k))) for k in range(d)]


def run(chk):
    A.UNROLL[0] = 0
    P.CANCEL[0] = True
    bc = build.compile_source(SRC, "c17")
    chk.module(bc)
    jobs = []
    for d in (1, 2, 3):
        jobs += [lambda d=d: builds(chk, bc, d)]
        jobs += [lambda d=d, n=n: point(chk, bc, d, n) for n in range(4)]
        jobs += [lambda d=d, n=n: closest(chk, bc, d, n) for n in range(4)]
        jobs += [lambda d=d, n=n: embed(chk, bc, d, n) for n in range(3)]
        jobs += [lambda d=d: bad(chk, bc, d)]
    chk.parallel(jobs)


def builds(chk, bc, d):
    subj = f"BarycentricContainer<{d}D> constructor"
    N = P.var("N")
    for n in (1, 2, 3, None):
        with chk.guard(subj):
            cnt = P.var("count", isint=True, lo=1, hi=10**9) if n is None else n
            m = Model(chk, bc, 0, {}, cnt)
            m.truth = {}
            _, _, w, it, st = chk.eval(bc, f"build{d}", [], it=m.it)
            ev = [e for e in st.events if e[1] in ("push", "loop")]
            rule = f"each of the {'n' if n is None else n} elements of the domain is added to the hash grid under its own index"
            if n is None:
                ev = [e for e in ev if e[1] == "push" or pushes(e[2]["body_events"])]
                ok = None
                got = loop_range(ev, N)
                if got is not None:
                    lo, hi = got
                    ok = lo == P.ZERO and (hi - cnt + P.ONE) == P.ZERO or None
                det = "" if ok else str(ev)[:300]
                if ok is None:
                    ok, det = None, det
                    for c in (1, 2, 5):
                        try:
                            r = sorted(c15.unroll(ev, {"count": P.Fraction(c), "N": P.Fraction(1000)}, 1))
                        except (num.Undefined, KeyError):
                            continue
                        if r != [i * 1001 for i in range(c)]:
                            ok, det = False, f"adds {[str(x) for x in r]} (element + 1000 * identifier) for {c} elements"
                chk.ob(subj, rule, ok, det, w)
            else:
                if any(e[1] == "loop" and pushes(e[2]["body_events"]) for e in ev):
                    chk.ob(subj, rule, None, "loop not followed", w)
                    continue
                got = [(e[0], e[2]) for e in ev if e[1] == "push"]
                want = [P.K(i) + N * P.K(i) for i in range(n)]
                ok = all(q is P.TRUE for q, _ in got) and sorted(map(str, (x for _, x in got))) == sorted(map(str, want))
                chk.ob(subj, rule, ok, f"adds {[str(x) for _, x in got]} (element + N * identifier)", w)
                chk.ob(subj, f"no element besides those of the domain ({n}) is looked at", all(e.const() is None or 0 <= e.const() < n for e in m.asked), f"elements {sorted(map(str, m.asked))}", w)
                sz = [e[2] for e in st.events if e[1] == "size"]
                ok, det = True if len(sz) == 1 else None, ""
                for s in range(40):
                    pt = num.Point(s)
                    try:
                        h = pt.ev(sz[0])
                    except (num.Undefined, IndexError):
                        continue
                    if not h > 0:
                        ok, det = False, f"cell size {h}"
                if ok and n == 1:
                    chk.ob(subj, "the cells of the hash grid have a positive size", ok, det, w)
                elif ok is False:
                    chk.ob(subj, "the cells of the hash grid have a positive size", ok, det, w)


def pushes(ev):
    return any(e[1] == "push" or e[1] == "loop" and pushes(e[2]["body_events"]) for e in ev)


def loop_range(ev, N):
    """first and last element added by the events"""
    ev = [e for e in ev if e[0] is not P.FALSE]
    if not ev or ev[0][1] != "loop" or ev[0][0] is not P.TRUE:
        return None
    s = ev[0][2]
    for pid, x in s["phi"].items():
        if not isinstance(x, P.Poly) or s["next"].get(pid) != x + P.ONE:
            continue
        body = [e for e in s["body_events"] if e[1] == "push"]
        if len(body) == 1 and body[0][0] is P.TRUE and body[0][2] == x + N * x:
            up = s["start"][pid].const()
            pos = [P.bcmp("le", -x + P.K(up)), P.bnot(P.bcmp("le", x + P.ONE)), P.bnot(P.bcmp("lt", x))] if up is not None and up >= 0 else []      # the counter only grows
            cont = P.band(P.TRUE, *[c for c in c15.conj(s["cont"]) if c not in pos])
            neg = cont.kind == "not" and cont.args[0].kind == "eq"
            p = cont.args[0].args[0] if neg else cont.args[0] if cont.kind in ("le", "lt") else None
            if p is None:
                return None
            c = x - p if neg and not P.support(x - p) & P.support(x) else x + p if neg else None
            if neg:
                last = c
            else:
                last = x - p - (P.ONE if cont.kind == "lt" else P.ZERO)
            rest = [e for e in ev[1:] if e[1] == "push"]
            if len(ev) == 1 and not neg:
                return s["start"][pid], last
            if len(rest) == 1 and len(ev) == 2 and rest[0][0] is P.TRUE and rest[0][2] == x + N * x:
                return s["start"][pid], last if neg else last + P.ONE
            if len(ev) == 1 and neg:
                return s["start"][pid], last - P.ONE
    return None


def point(chk, bc, d, n):
    subj = f"BarycentricContainer<{d}D>::barycentric_point"
    for bits in itertools.product((0, 1), repeat=n):
        with chk.guard(subj):
            p = [P.var(f"p[{k}]") for k in range(d)]
            m = Model(chk, bc, n, dict(enumerate(bits)))
            m.truth = {k: (cand(k, p), coords(local(cand(k, p), p, d))) for k in range(n)}
            vals, _, w, it, st = chk.eval(bc, f"point{d}", [arr("p", p)], d + 1, it=m.it)
            rule = f"candidates {''.join('in' if b else 'out' for b in bits) if bits else 'none'}"
            good = [[cand(k, p)] + local(cand(k, p), p, d) for k in range(n) if bits[k]] or [[P.K(-1)] + [P.ZERO] * d]
            ok = any(all(isinstance(x, P.Poly) and x == y for x, y in zip(vals, g)) for g in good)
            chk.ob(subj, rule + (": a containing candidate with the local coordinates of the point in it" if any(bits) else ": index -1"), ok if m.stray is None or ok else None,
                   f"{[str(x) for x in vals]} {m.stray or ''}"[:300], w)


def closest(chk, bc, d, n):
    subj = f"BarycentricContainer<{d}D>::closest_elements"
    with chk.guard(subj):
        p = [P.var(f"p[{k}]") for k in range(d)]
        m = Model(chk, bc, n, {})
        m.truth = {}
        vals, _, w, it, st = chk.eval(bc, f"closest{d}", [arr("p", p)], 1 + n * (d + 1), it=m.it)
        want = [P.K(n)]
        for k in range(n):
            want += [cand(k, p)] + local(cand(k, p), p, d)
        chk.ob(subj, f"every one of {n} candidates with the local coordinates of the point in it", all(isinstance(x, P.Poly) and x == y for x, y in zip(vals, want)), str([str(x) for x in vals])[:300], w)


def embed(chk, bc, d, n):
    p = [[P.var(f"p{i}[{k}]") for k in range(d)] for i in range(2)]
    for bits in itertools.product(range(1 << n), repeat=2):
        contains = {(i, k): bits[i] >> k & 1 for i in range(2) for k in range(n)}
        truth = {(i, k): (cand(k, p[i]), coords(local(cand(k, p[i]), p[i], d))) for i in range(2) for k in range(n)}
        hit = [[k for k in range(n) if contains[i, k]] for i in range(2)]
        rule = ", ".join(f"point {i} in {len(hit[i])} of {n} candidates" for i in range(2))
        out = [i for i in range(2) if not hit[i]]
        subj = f"BarycentricContainer<{d}D> embedded points"
        with chk.guard(subj):
            m = Model(chk, bc, n, contains)
            m.truth = truth
            vals, _, w, it, st = chk.eval(bc, f"embed{d}", [arr("p", p[0] + p[1])], 2 + 2 * (d + 1) + len(out), it=m.it)
            chk.ob(subj, rule + ": one barycentric point each", vals[0] == P.TWO if hasattr(P, "TWO") else vals[0] == P.K(2), str(vals[0]), w)
            for i in range(2):
                good = [[cand(k, p[i])] + local(cand(k, p[i]), p[i], d) for k in hit[i]] or [[P.K(-1)] + [P.ZERO] * d]
                got = vals[1 + i * (d + 1):1 + (i + 1) * (d + 1)]
                chk.ob(subj, rule + f": point {i} is in the element it is given", any(all(isinstance(x, P.Poly) and x == y for x, y in zip(got, g)) for g in good), str([str(x) for x in got])[:300], w)
            chk.ob(subj, rule + ": the outside nodes are exactly the points in no element", [str(x) for x in vals[1 + 2 * (d + 1):]] == [str(len(out))] + [str(i) for i in out],
                   str([str(x) for x in vals[1 + 2 * (d + 1):]]), w)
        for C, dyn in ((1, 0), (3, 0), (2, 1)):
            subj = f"BarycentricContainer<{d}D>::interpolate ({C} components{', number known at run time' if dyn else ''})"
            with chk.guard(subj):
                m = Model(chk, bc, n, contains)
                m.truth = truth
                old = [P.var(f"old[{j}]") for j in range(2 * C)]
                state = A.State()
                o = m.it.input_array(state, "o")
                for j, x in enumerate(old):
                    m.it.store(state, A.Ptr(o.obj, P.K(8 * j)), x, m.it.f64())
                _, _, w, it, st = chk.eval(bc, f"interp{d}_{'d' if dyn else C}", [arr("p", p[0] + p[1])] + [P.K(C)] * dyn + [o], it=m.it, state=state)
                chk.ob(subj, rule + ": only the components of the field are read", all(x.const() is None or 0 <= x.const() < C for x in m.columns), f"columns {sorted(map(str, m.columns))}", w)
                for i in range(2):
                    for c in range(C):
                        got = st.mem[o.obj].cells.get(8 * (i * C + c), (0, A.UNDEF))[1]
                        if hit[i]:
                            wants = []
                            for k in hit[i]:
                                e = cand(k, p[i])
                                l = coords(local(e, p[i], d))
                                s = P.ZERO
                                for nn in range(3):
                                    idx = P.apoly(P.atom("fn", "index", e, P.K(nn), isint=True, lo=0))
                                    s = s + P.apoly(P.atom("fn", "shape", e, *l, P.K(nn))) * P.apoly(P.atom("fn", "field", idx, P.K(c)))
                                wants.append(s)
                            chk.ob(subj, rule + f": component {c} of point {i} is the element's interpolation of its nodes' values", any(isinstance(got, P.Poly) and got == x for x in wants), str(got)[:300], w)
                        else:
                            chk.ob(subj, rule + f": component {c} of point {i} (outside) is left alone", isinstance(got, P.Poly) and got == old[i * C + c], str(got)[:300], w)


def bad(chk, bc, d):
    subj = f"BarycentricContainer<{d}D>::interpolate"
    for rows, done, ok in ((7, 2, True), (6, 2, False), (8, 2, False), (7, 1, False), (7, 3, False)):
        with chk.guard(subj):
            p = [[P.var(f"p{i}[{k}]") for k in range(d)] for i in range(2)]
            m = Model(chk, bc, 0, {})
            m.truth = {}
            res = None
            try:
                vals, ret, w, it, st = chk.eval(bc, f"interpbad{d}", [arr("p", p[0] + p[1]), P.K(rows), P.K(done)], 1, it=m.it)
                res = vals[0] == P.ONE if isinstance(vals[0], P.Poly) else False
            except A.Unsupported as e:
                if "no outcome" not in str(e) and "throw" not in str(e):
                    raise
                w = chk.where(m.it)
                res = False
            chk.ob(subj, f"{rows} input rows for 7 nodes, {done} output rows for 2 points: " + ("accepted" if ok else "refused"), res == ok, "", w)


RULE = ("dataflow over the LLVM IR of BarycentricContainer instantiated with a symbolic domain, element and hash grid: results, outside nodes and interpolated values must be the ones the "
        "symbolic geometry prescribes for every combination of contained and not contained candidates")
ASSUMPTIONS = ["up to 3 candidate elements per point and 2 embedded points (enumerated; the loops treat each alike)", "exact real arithmetic",
               "the element, domain and hash grid operations are correct (C01, C06-C08, C16, C18)"]
