"""C04: boundary facets."""
from engine import absint as A, elements as EL, poly as P

FACETS = {"triangle": 3, "quad": 4, "tetra": 4, "hexa": 6}
FNODES = {("triangle", "Linear"): 2, ("triangle", "Quadratic"): 3, ("quad", "Linear"): 2, ("quad", "Quadratic"): 3,
          ("tetra", "Linear"): 3, ("tetra", "Quadratic"): 6, ("hexa", "Linear"): 4, ("hexa", "Quadratic"): 8}
EDGES = {"tetra": 6, "hexa": 12}
BODY = '''
using B = typename traits<E>::BoundaryElementType;
extern "C" void w_indices(const double * n, double * out) {
    const E e = MAKE(n);
    const auto & idx = e.boundary_elements_node_indices();
    *out++ = static_cast<double>(e.number_of_boundary_elements());
    *out++ = static_cast<double>(traits<E>::NumberOfBoundaryElementsAtCompileTime);
    *out++ = static_cast<double>(idx.size());
    *out++ = static_cast<double>(idx[0].size());
    for (const auto & f : idx) for (const auto & i : f) *out++ = static_cast<double>(i);
}
extern "C" void w_alias(const double * n, double * out) {
    const E e = MAKE(n);
    const auto idx = e.FACES(); for (const auto & f : idx) for (const auto & i : f) *out++ = static_cast<double>(i);
}
extern "C" void w_belem(const double * n, double * out) {
    const E e = MAKE(n);
    for (int i = 0; i < NF; ++i) { const auto b = e.boundary_element(i); put(out, b.nodes()); }
}
extern "C" void w_nodes(const double * n, double * out) { const E e = MAKE(n); put(out, e.nodes()); }
extern "C" void w_L(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.L(local<E>(xi))); }
extern "C" void w_BL(const double *, const double * eta, double * out) { const B b; put(out, b.L(local<B>(eta))); }
'''
EDGE = '''
extern "C" void w_edges(const double * n, double * out) {
    const E e = MAKE(n);
    const auto idx = e.edges(); for (const auto & f : idx) for (const auto & i : f) *out++ = static_cast<double>(i);
}
'''


def body(n, info):
    ty, shape, order, dim, rect = info
    if shape == "segment":
        return None
    t = f"#define NF {FACETS[shape]}\n#define FACES {'faces' if shape in EDGES else 'edges'}\n" + BODY
    return t + (EDGE if shape in EDGES else "")


def cint(x):
    if isinstance(x, P.Poly) and x.const() is not None:
        return int(x.const())
    return None


def run(chk):
    el = EL.Elements(chk, body, tag="c04_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        N, c = EL.NNODES[shape, order], EL.CDIM[shape]
        nf, fn = FACETS[shape], FNODES[shape, order]
        idx, _, it = el.run(n, "w_indices", ["n"])
        w = EL.src(n, chk, it)
        for i, k in enumerate(("number_of_boundary_elements()", "declared number of boundary elements", "size of the facet table")):
            chk.equal(n, f"{k} = {nf}", idx.get(i, A.UNDEF), P.K(nf), w)
        chk.equal(n, f"nodes per facet = {fn}", idx.get(3, A.UNDEF), P.K(fn), w)
        tab = [[cint(idx.get(4 + f * fn + k)) for k in range(fn)] for f in range(nf)]
        if any(x is None for r in tab for x in r):
            chk.ob(n, "facet table is constant", None, "", w)
            continue
        if not chk.ob(n, "facet node indices exist", all(0 <= x < N for r in tab for x in r), str(tab), w):
            continue
        al, _, it2 = el.run(n, "w_alias", ["n"])
        for f in range(nf):
            for k in range(fn):
                chk.equal(n, f"faces()/edges() entry {f},{k}", al.get(f * fn + k, A.UNDEF), P.K(tab[f][k]), EL.src(n, chk, it2))
        L, _, _ = el.run(n, "w_L", ["n", "xi"], N)
        BL, _, _ = el.run(n, "w_BL", ["n", "eta"], fn)
        ref = EL.REF[shape, order]
        xi = [next(iter(P.support(v))) for v in EL.xi_vars(c)]
        eta = [next(iter(P.support(v))) for v in EL.xi_vars(c - 1, "eta")]
        corners = set()
        centre = [sum(P.Fraction(r[k]) for r in ref) / N for k in range(c)]
        for f in range(nf):
            # position on the parent's reference element of the facet's local point eta
            x = [sum((BL[k] * P.K(P.Fraction(ref[tab[f][k]][a])) for k in range(fn)), P.ZERO) for a in range(c)]
            mp = {xi[a]: x[a] for a in range(c)}
            for j in range(N):
                want = BL[tab[f].index(j)] if j in tab[f] else P.ZERO
                chk.equal(n, f"facet {f}: trace of parent shape function {j} is the facet's own shape function",
                          P.subst(L[j], mp), want, w)
            # outward orientation, at the facet's centre
            t = [[P.diff(x[a], e) for a in range(c)] for e in eta]
            if c == 3:
                nrm = [t[0][1] * t[1][2] - t[0][2] * t[1][1], t[0][2] * t[1][0] - t[0][0] * t[1][2], t[0][0] * t[1][1] - t[0][1] * t[1][0]]
            else:
                nrm = [t[0][1], -t[0][0]]
            d = P.ZERO
            for a in range(c):
                d = d + nrm[a] * (x[a] - P.K(centre[a]))
            mid = P.Fraction(1, 3) if shape == "tetra" else 0
            v = P.subst(d, {e: P.K(mid) for e in eta}).const()
            chk.ob(n, f"facet {f} is oriented outward", v is not None and v > 0, f"normal.(facet centre - element centre) = {v}", w)
            corners.add(frozenset(tab[f][:(3 if shape == "tetra" else 4) if c == 3 else 2]))
        chk.ob(n, "every facet appears exactly once", len(corners) == nf, str(tab), w)
        # boundary_element(i) has the listed nodes of the element, in the listed order
        nodes, _, _ = el.run(n, "w_nodes", [EL.inputs(n)], N * dim)
        be, _, it3 = el.run(n, "w_belem", [EL.inputs(n)])
        for f in range(nf):
            for k in range(fn):
                for a in range(dim):
                    chk.equal(n, f"boundary_element({f}) node {k} coordinate {a}", be.get((f * fn + k) * dim + a, A.UNDEF),
                              nodes[tab[f][k] * dim + a], EL.src(n, chk, it3))
        if shape in EDGES:
            per = 2 if order == "Linear" else 3
            ed, _, it4 = el.run(n, "w_edges", ["n"])
            E = [[cint(ed.get(e * per + k)) for k in range(per)] for e in range(EDGES[shape])]
            if any(x is None for r in E for x in r):
                chk.ob(n, "edge table is constant", None, "", EL.src(n, chk, it4))
                continue
            want = set()
            nc = 4 if shape == "tetra" else 8
            for a in range(nc):
                for b in range(a):
                    if shape == "tetra" or sum(p != q for p, q in zip(ref[a], ref[b])) == 1:
                        want.add(frozenset((a, b)))
            chk.ob(n, "edges() lists every edge once", {frozenset(r[:2]) for r in E} == want and len(E) == len(want), str(E), EL.src(n, chk, it4))
            if per == 3:
                for r in E:
                    m = tuple((P.Fraction(p) + P.Fraction(q)) / 2 for p, q in zip(ref[r[0]], ref[r[1]]))
                    chk.ob(n, f"edge {r[:2]} mid node", tuple(P.Fraction(z) for z in ref[r[2]]) == m, str(r), EL.src(n, chk, it4))


RULE = ("constant propagation of the facet/edge tables; for every facet the parent's shape functions composed with the facet's "
        "own parametrisation must reduce, as polynomials, to the facet element's shape functions (and to 0 for the other nodes); "
        "orientation and completeness on the tables; boundary_element() by dataflow from the node coordinates")
