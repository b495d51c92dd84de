"""C05: an element is made of the nodes it is given, in the order given; quadratic elements built from
linear ones get exact mid-edge nodes."""
from engine import absint as A, elements as EL, poly as P

BODY = '''
template <std::size_t... I> E variadic(const double * n, std::index_sequence<I...>) { return E(world<E>(n + I*DD<E>)...); }
template <class F> void all_nodes(const F & e, double * out) {
    put(out, e.nodes()); for (int i = 0; i < NN<E>; ++i) put(out, e.node(i));
}
extern "C" void w_const_matrix(const double * n, double * out) { const NodesOf<E> m = matrix<E>(n); const E e(m); all_nodes(e, out); }
extern "C" void w_matrix(const double * n, double * out) { NodesOf<E> m = matrix<E>(n); const E e(m); all_nodes(e, out); }
extern "C" void w_map(const double * n, double * out) {
    const Eigen::Map<const Eigen::Matrix<double, NN<E>, DD<E>, (DD<E> == 1 ? Eigen::ColMajor : Eigen::RowMajor)>> m(n);
    const E e(m); all_nodes(e, out);
}
extern "C" void w_variadic(const double * n, double * out) { const E e = variadic(n, std::make_index_sequence<NN<E>>{}); all_nodes(e, out); }
extern "C" void w_copy(const double * n, double * out) { const E a(matrix<E>(n)); E e; e = a; const E f(e); all_nodes(f, out); }
'''
QUAD = '''
using LE = LINEAR;
extern "C" void w_from_linear(const double * n, double * out) { const LE l(matrix<LE>(n)); const E e(l); all_nodes(e, out); }
template <std::size_t... I> E corners(const double * n, std::index_sequence<I...>) { return E(world<E>(n + I*DD<E>)...); }
template <std::size_t... I> E corners_lv(const double * n, std::index_sequence<I...>) {
    typename E::WorldCoordinates p[NN<LE>] = { world<E>(n + I*DD<E>)... }; return E(p[I]...);
}
extern "C" void w_from_corners(const double * n, double * out) { const E e = corners(n, std::make_index_sequence<NN<LE>>{}); all_nodes(e, out); }
extern "C" void w_from_corners_lv(const double * n, double * out) { const E e = corners_lv(n, std::make_index_sequence<NN<LE>>{}); all_nodes(e, out); }
'''


def body(n, info):
    ty, shape, order, dim, rect = info
    if rect:
        return None
    t = BODY
    if order == "Quadratic" and shape != "segment":
        t += QUAD.replace("LINEAR", ty.replace("Quadratic", "Linear"))
    return t


def run(chk):
    el = EL.Elements(chk, body, tag="c05_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        N = EL.NNODES[shape, order]
        for fn, what in (("w_const_matrix", "a constant matrix"), ("w_matrix", "a matrix"), ("w_map", "a mapped array"),
                         ("w_variadic", "a list of points"), ("w_copy", "copy")):
            o, _, it = el.run(n, fn, ["n"], 2 * N * dim)
            for i in range(N):
                for k in range(dim):
                    chk.equal(n, f"from {what}: nodes() row {i} coordinate {k}", o[i * dim + k], P.var(f"n[{i * dim + k}]"), EL.src(n, chk, it))
                    chk.equal(n, f"from {what}: node({i}) coordinate {k}", o[(N + i) * dim + k], P.var(f"n[{i * dim + k}]"), EL.src(n, chk, it))
        if order == "Quadratic" and shape != "segment":
            ref = EL.REF[shape, order]
            NL = EL.NNODES[shape, "Linear"]
            for fn, what in (("w_from_linear", "a linear element"), ("w_from_corners", "its corner points"),
                             ("w_from_corners_lv", "its corner points (lvalues)")):
                o, _, it = el.run(n, fn, ["n"], 2 * N * dim)
                for i in range(N):
                    if i < NL:
                        par = [i]
                    else:
                        par = [p for p in ((a, b) for a in range(NL) for b in range(a))
                               if all((P.Fraction(x) + P.Fraction(y)) / 2 == z for x, y, z in zip(ref[p[0]], ref[p[1]], ref[i]))
                               and (shape in ("triangle", "tetra") or sum(x != y for x, y in zip(ref[p[0]], ref[p[1]])) == 1)][0]
                    for k in range(dim):
                        want = sum((P.var(f"n[{a * dim + k}]") for a in par), P.ZERO).scale(P.Fraction(1, len(par)))
                        chk.equal(n, f"from {what}: node {i} coordinate {k} is the " + ("corner" if i < NL else f"middle of edge {par}"),
                                  o[i * dim + k], want, EL.src(n, chk, it))


RULE = ("dataflow from the coordinates given to each constructor to the coordinates returned by nodes() and node(i): "
        "identity for the given nodes, exact midpoints for the generated ones")
