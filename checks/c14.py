"""C14: numbering and geometry of grids."""
from engine import build, num, poly as P

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou::topology;
typedef long long I;
template <class G> struct Q : public G {
    using G::G; using Base = caribou::topology::internal::BaseGrid<G::Dimension, G>;
};
template <class G> G mk(const double * a, const double * s, const I * n) {
    constexpr int D = G::Dimension;
    typename G::WorldCoordinates A; typename G::Dimensions S; typename G::Subdivisions N;
    for (int i = 0; i < D; ++i) { A[i] = a[i]; S[i] = s[i]; N[i] = n[i]; }
    return G(A, N, S);
}
template <class G> const caribou::topology::internal::BaseGrid<G::Dimension, G> & base(const G & g) { return g; }
template <class G> typename G::GridCoordinates gc(const I * c) { typename G::GridCoordinates r; for (size_t i = 0; i < G::Dimension; ++i) r[i] = c[i]; return r; }
template <class G> typename G::WorldCoordinates wc(const double * c) { typename G::WorldCoordinates r; for (size_t i = 0; i < G::Dimension; ++i) r[i] = c[i]; return r; }
#define ARGS const double * a, const double * s, const I * n
template <class V> void pi(I * o, const V & v) { for (size_t i = 0; i < (size_t) v.size(); ++i) o[i] = v[i]; }
template <class V> void pd(double * o, const V & v) { for (size_t i = 0; i < (size_t) v.size(); ++i) o[i] = v[i]; }
#define W(D) using G##D = Grid<D>; \\
extern "C" I w##D##_ncells(ARGS) { return mk<G##D>(a, s, n).number_of_cells(); } \\
extern "C" I w##D##_nnodes(ARGS) { return mk<G##D>(a, s, n).number_of_nodes(); } \\
extern "C" void w##D##_N(ARGS, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.N()); } \\
extern "C" void w##D##_H(ARGS, double * o) { const auto g = mk<G##D>(a, s, n); pd(o, g.H()); } \\
extern "C" void w##D##_A(ARGS, double * o) { const auto g = mk<G##D>(a, s, n); pd(o, g.anchor_position()); } \\
extern "C" void w##D##_S(ARGS, double * o) { const auto g = mk<G##D>(a, s, n); pd(o, g.size()); } \\
extern "C" I w##D##_node_index_at(ARGS, const I * c) { return mk<G##D>(a, s, n).node_index_at(gc<G##D>(c)); } \\
extern "C" I w##D##_cell_index_at(ARGS, const I * c) { return mk<G##D>(a, s, n).cell_index_at(gc<G##D>(c)); } \\
extern "C" void w##D##_node_coordinates_at(ARGS, I i, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.node_coordinates_at(i)); } \\
extern "C" void w##D##_cell_coordinates_at(ARGS, I i, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.cell_coordinates_at(i)); } \\
extern "C" void w##D##_node(ARGS, I i, double * o) { const auto g = mk<G##D>(a, s, n); pd(o, g.node(i)); } \\
extern "C" void w##D##_nodec(ARGS, const I * c, double * o) { const auto g = mk<G##D>(a, s, n); pd(o, base(g).node(gc<G##D>(c))); } \\
extern "C" void w##D##_node_indices(ARGS, I i, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.node_indices_of(i)); } \\
extern "C" void w##D##_node_indicesc(ARGS, const I * c, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.node_indices_of(gc<G##D>(c))); } \\
extern "C" void w##D##_cell(ARGS, I i, double * o) { const auto g = mk<G##D>(a, s, n); const auto e = g.cell_at(i); const auto m = e.nodes(); for (int q = 0; q < m.rows(); ++q) for (int k = 0; k < m.cols(); ++k) *o++ = m(q, k); } \\
extern "C" void w##D##_cellc(ARGS, const I * c, double * o) { const auto g = mk<G##D>(a, s, n); const auto e = g.cell_at(gc<G##D>(c)); const auto m = e.nodes(); for (int q = 0; q < m.rows(); ++q) for (int k = 0; k < m.cols(); ++k) *o++ = m(q, k); } \\
extern "C" void w##D##_locate(ARGS, const double * p, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, base(g).cell_coordinates_at(wc<G##D>(p))); } \\
extern "C" void w##D##_locatef(ARGS, const double * p, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, base(g).cell_coordinates_at(wc<G##D>(p), false)); } \\
extern "C" void w##D##_locateb(ARGS, const double * p, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, base(g).cell_coordinates_at(wc<G##D>(p), true)); } \\
extern "C" I w##D##_containing(ARGS, const double * p) { return mk<G##D>(a, s, n).cell_index_containing(wc<G##D>(p)); } \\
extern "C" I w##D##_containingf(ARGS, const double * p) { return mk<G##D>(a, s, n).cell_index_containing(wc<G##D>(p), false); } \\
extern "C" I w##D##_containingb(ARGS, const double * p) { return mk<G##D>(a, s, n).cell_index_containing(wc<G##D>(p), true); } \\
extern "C" bool w##D##_contains(ARGS, const double * p, const double * e) { return mk<G##D>(a, s, n).contains(wc<G##D>(p), *e); } \\
extern "C" bool w##D##_contains0(ARGS, const double * p) { return mk<G##D>(a, s, n).contains(wc<G##D>(p)); }
W(1) W(2) W(3)
#define E(D) \\
extern "C" I w##D##_nedges(ARGS) { return mk<G##D>(a, s, n).number_of_edges(); } \\
extern "C" void w##D##_edge(ARGS, I i, I * o) { const auto g = mk<G##D>(a, s, n); pi(o, g.edge(i)); }
E(2) E(3)
extern "C" I w3_nfaces(ARGS) { return mk<G3>(a, s, n).number_of_faces(); }
extern "C" void w3_face(ARGS, I i, I * o) { const auto g = mk<G3>(a, s, n); pi(o, g.face(i)); }
'''

ALMOST1 = 1 - P.Fraction(1, 10**12)
CORNERS = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


def nat(name):
    return P.var(name, isint=True, lo=0)


def mixed(c, ext):
    """index of coordinates c in an array of extents ext, first axis fastest"""
    r, m = P.ZERO, P.ONE
    for x, e in zip(c, ext):
        r = r + x * m
        m = m * e
    return r


class Grid:
    def __init__(self, chk, bc, d):
        self.chk, self.bc, self.d = chk, bc, d
        self.a = [P.var(f"anchor[{i}]") for i in range(d)]
        self.s = [P.var(f"size[{i}]", lo=P.Fraction(1, 10**30)) for i in range(d)]

    def call(self, f, n, args=(), nout=0):
        inp = [("a", dict(enumerate(self.a))), ("s", dict(enumerate(self.s))), ("n", dict(enumerate(n)))] + list(args)
        v, r, w, it, s = self.chk.eval(self.bc, f"w{self.d}_{f}", inp, nout)
        return (v if nout else r), w

    def pos(self, c, n):
        return [self.a[i] + c[i] * self.s[i] * P.inv(n[i]) for i in range(self.d)]


def arr(name, v):
    return (name, dict(enumerate(v)))


def run(chk):
    P.CANCEL[0] = True
    num.EXACT[0] = True
    bc = build.compile_source(SRC, "c14")
    for d in (1, 2, 3):
        grid(chk, Grid(chk, bc, d))


def vec(chk, subj, rule, got, want, w, assume=None):
    for i, (x, y) in enumerate(zip(got, want)):
        chk.equal(subj, f"{rule} [{i}]", x, y, w, assume=assume)


def grid(chk, g):
    d = g.d
    subj = f"Grid<{d}>"
    i, r = [nat(f"i{k}") for k in range(d)], [nat(f"r{k}") for k in range(d)]
    one = P.ONE
    n = [one + i[k] + r[k] for k in range(d)]         # any number of cells; i = any cell, or any node but the last of an axis
    m = [x + one for x in n]
    with chk.guard(subj + " description"):
        for f, want, what in (("A", g.a, "anchor_position()"), ("S", g.s, "size()"), ("N", n, "N()"), ("H", [g.s[k] * P.inv(n[k]) for k in range(d)], "H() = size / N")):
            got, w = g.call(f, n, nout=d)
            vec(chk, subj, what, got, want, w)
        for f, e, what in (("ncells", n, "number_of_cells"), ("nnodes", m, "number_of_nodes")):
            got, w = g.call(f, n)
            want = P.ONE
            for x in e:
                want = want * x
            chk.equal(subj, what, got, want, w)
    # nodes: i <= n on every axis (any mix of last and not last)
    with chk.guard(subj + " nodes"):
        nn = [one + i[k] + r[k] for k in range(d)]
        for last in range(1 << d):
            c = [nn[k] if last >> k & 1 else i[k] for k in range(d)]
            tag = f"node {'last on axes ' + str([k for k in range(d) if last >> k & 1]) if last else 'anywhere'}"
            idx, w = g.call("node_index_at", nn, [arr("c", c)])
            want = mixed(c, m)
            chk.equal(subj, f"{tag}: node_index_at numbers x first, then y, then z", idx, want, w)
            got, w = g.call("node_coordinates_at", nn, [want], d)
            vec(chk, subj, f"{tag}: node_coordinates_at inverts node_index_at", got, c, w)
            got, w = g.call("node", nn, [want], d)
            vec(chk, subj, f"{tag}: node(index) = anchor + coordinates * H", got, g.pos(c, nn), w)
            got, w = g.call("nodec", nn, [arr("c", c)], d)
            vec(chk, subj, f"{tag}: node(coordinates) = anchor + coordinates * H", got, g.pos(c, nn), w)
    with chk.guard(subj + " cells"):
        ci = mixed(i, n)
        idx, w = g.call("cell_index_at", n, [arr("c", i)])
        chk.equal(subj, "cell_index_at numbers x first, then y, then z", idx, ci, w)
        got, w = g.call("cell_coordinates_at", n, [ci], d)
        vec(chk, subj, "cell_coordinates_at inverts cell_index_at", got, i, w)
        corners = [[i[k] + P.K(o[k]) for k in range(d)] for o in CORNERS[d]]
        for f, args in (("node_indices", [ci]), ("node_indicesc", [arr("c", i)])):
            got, w = g.call(f, n, args, len(corners))
            vec(chk, subj, "node_indices_of(%s) are the cell's corners in element order" % ("index" if args[0] is ci else "coordinates"),
                got, [mixed(c, m) for c in corners], w)
        for f, args in (("cell", [ci]), ("cellc", [arr("c", i)])):
            got, w = g.call(f, n, args, d * len(corners))
            vec(chk, subj, "cell_at(%s) has its nodes at the grid nodes" % ("index" if args[0] is ci else "coordinates"),
                got, [x for c in corners for x in g.pos(c, n)], w)
    locate(chk, g, subj, i, r, n)
    if d > 1:
        facets(chk, g, subj)


def locate(chk, g, subj, i, r, n):
    d = g.d
    n = [P.var(f"n{k}", isint=True, lo=1) for k in range(d)]
    i = [n[k] - P.ONE - r[k] for k in range(d)]
    inside = P.TRUE
    for x in i:
        inside = P.band(inside, P.bcmp("le", -x))
    facts = P.FACTS[:]
    P.FACTS.extend(i)
    try:
        located(chk, g, subj, i, n, inside)
    finally:
        P.FACTS[:] = facts


def located(chk, g, subj, i, n, inside):
    d = g.d
    for nm, lo, hi in (("any point inside a cell", 0, ALMOST1),):
        f = [P.var(f"f{k}", lo=lo, hi=hi) for k in range(d)]
        p = g.pos([i[k] + f[k] for k in range(d)], n)
        with chk.guard(subj + " location"):
            for fn in ("locate", "locatef"):
                got, w = g.call(fn, n, [arr("p", p)], d)
                vec(chk, subj, f"{nm}: cell_coordinates_at(point) = its cell", got, i, w, inside)
            for fn in ("containing", "containingf"):
                got, w = g.call(fn, n, [arr("p", p)])
                chk.equal(subj, f"{nm}: cell_index_containing", got, mixed(i, n), w, assume=inside)
    # with the boundary test: point of the lower part of a cell, of its upper part, on the upper boundary
    h = P.Fraction(1, 2)
    for case in range(3 ** d):
        cs = [case // 3 ** k % 3 for k in range(d)]
        c = [i[k] + P.K(h) - P.var(f"e{k}", lo=0, hi=h) if cs[k] == 0 else i[k] + P.var(f"g{k}", lo=h, hi=ALMOST1) if cs[k] == 1 else n[k] for k in range(d)]
        want = [n[k] - P.ONE if cs[k] == 2 else i[k] for k in range(d)]
        tag = "boundary test, " + ", ".join(("lower half", "upper half", "on the upper boundary")[x] for x in cs)
        with chk.guard(subj + " location with boundary test"):
            p = g.pos(c, n)
            got, w = g.call("locateb", n, [arr("p", p)], d)
            vec(chk, subj, f"{tag}: cell_coordinates_at(point, true)", got, want, w, inside)
            got, w = g.call("containingb", n, [arr("p", p)])
            chk.equal(subj, f"{tag}: cell_index_containing(point, true)", got, mixed(want, n), w, assume=inside)
    with chk.guard(subj + " contains"):
        u = [P.var(f"u{k}") for k in range(d)]
        eps = P.var("eps", lo=0)
        p = [g.a[k] + g.s[k] * u[k] for k in range(d)]
        for fn, e, args in (("contains", eps, [arr("e", [eps])]), ("contains0", P.ZERO, [])):
            got, w = g.call(fn, n, [arr("p", p)] + args)
            want = P.TRUE
            for k in range(d):
                want = P.band(want, P.band(P.bcmp("le", -e - u[k]), P.bcmp("le", u[k] - P.ONE - e)))
            if fn == "contains":
                chk.boolean(subj, "contains: inside the box enlarged by the tolerance", got, want, w)
                continue
            # the default tolerance is of the order of the rounding: between the box and a box larger by a millionth
            e = P.K(P.Fraction(1, 10**6))
            more = P.TRUE
            for k in range(d):
                more = P.band(more, P.band(P.bcmp("le", -e - u[k]), P.bcmp("le", u[k] - P.ONE - e)))
            for a, b, what in ((want, got, "every point of the box is inside"), (got, more, "no point far outside is inside")):
                chk.boolean(subj, f"contains with default tolerance: {what}", P.bor(P.bnot(a), b), P.TRUE, w)


def facets(chk, g, subj):
    d = g.d
    one = P.ONE

    def ext(free):
        """coordinates and extents: on axes in `free` the coordinate is that of a cell (< n), on the others that of a node (<= n)"""
        i, r = [nat(f"i{k}") for k in range(d)], [nat(f"r{k}") for k in range(d)]
        res = []
        nodes = [k for k in range(d) if k not in free]
        for last in range(1 << len(nodes)):
            n = [one + i[k] + r[k] for k in range(d)]
            c = list(i)
            tag = []
            for b, k in enumerate(nodes):
                if last >> b & 1:
                    c[k] = n[k]
                    tag.append(k)
            res.append((c, n, f" last on axes {tag}" if tag else ""))
        return res

    def e(c, *ax):
        return [c[k] + P.K(int(k in ax)) for k in range(d)]

    i, r = [nat(f"i{k}") for k in range(d)], [nat(f"r{k}") for k in range(d)]
    n = [one + i[k] + r[k] for k in range(d)]
    with chk.guard(subj + " facet counts"):
        want = P.ZERO
        for k in range(d):
            t = n[k]
            for l in range(d):
                if l != k:
                    t = t * (n[l] + one)
            want = want + t
        got, w = g.call("nedges", n)
        chk.equal(subj, "number_of_edges counts the edges along every axis", got, want, w)
        if d == 3:
            got, w = g.call("nfaces", n)
            want = P.ZERO
            for k in range(3):
                a, b = [l for l in range(3) if l != k]
                want = want + n[a] * n[b] * (n[k] + one)
            chk.equal(subj, "number_of_faces counts the faces normal to every axis", got, want, w)
    for ax in range(d):
        for c, n, tag in ext([ax]):
            nx, ny = n[0], n[1]
            row = nx.scale(2) + one
            sl = row * ny + nx
            if ax == 2:
                idx = c[2] * (sl + (nx + one) * (ny + one)) + sl + c[1] * (nx + one) + c[0]
            else:
                idx = c[1] * row + c[0] + (nx if ax == 1 else P.ZERO)
                if d == 3:
                    idx = idx + c[2] * (sl + (nx + one) * (ny + one))
            with chk.guard(subj + " edges"):
                got, w = g.call("edge", n, [idx], 2)
                m = [x + one for x in n]
                vec(chk, subj, f"edge along axis {ax}{tag}: its two end nodes", got, [mixed(c, m), mixed(e(c, ax), m)], w)
    if d < 3:
        return
    for nrm in (2, 1, 0):
        a, b = [k for k in range(3) if k != nrm]
        for c, n, tag in ext([a, b]):
            nx, ny = n[0], n[1]
            between = (nx + one) * ny + nx * (ny + one)
            idx = c[2] * (nx * ny + between)
            if nrm == 2:
                idx = idx + c[1] * nx + c[0]
            elif nrm == 1:
                idx = idx + nx * ny + c[1] * nx + c[0]
            else:
                idx = idx + nx * ny + nx * (ny + one) + c[1] * (nx + one) + c[0]
            with chk.guard(subj + " faces"):
                got, w = g.call("face", n, [idx], 4)
                m = [x + one for x in n]
                vec(chk, subj, f"face normal to axis {nrm}{tag}: its four corner nodes in order", got,
                    [mixed(x, m) for x in (c, e(c, a), e(c, a, b), e(c, b))], w)


RULE = ("dataflow over the LLVM IR of Grid<1..3>: indices as exact integer polynomials of symbolic subdivisions and coordinates (divisions resolved by proving "
        "quotient and remainder), positions as polynomials; every numbering must be the inverse of its coordinates and every facet list its own corner nodes")
ASSUMPTIONS = ["exact real arithmetic", "indices fit in 64 bits", "positive size"]
