"""C06: geometric mapping: world coordinates, centre, jacobian, interpolation."""
from engine import elements as EL, poly as P

BODY = '''
extern "C" void w_nodes(const double * n, double * out) { const E e = MAKE(n); put(out, e.nodes()); }
extern "C" void w_node_i(const double * n, double * out) { const E e = MAKE(n); for (int i = 0; i < NN<E>; ++i) put(out, e.node(i)); }
extern "C" void w_L(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.L(local<E>(xi))); }
extern "C" void w_world(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.world_coordinates(local<E>(xi))); }
extern "C" void w_center(const double * n, double * out) { const E e = MAKE(n); put(out, e.center()); }
extern "C" void w_jac(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.jacobian(local<E>(xi))); }
template <int K> void interp(const double * n, const double * xi, const double * v, double * out) {
    const E e = MAKE(n); Eigen::Matrix<double, NN<E>, K> m;
    for (int i = 0; i < NN<E>; ++i) for (int j = 0; j < K; ++j) m(i,j) = v[i*K+j];
    const auto r = e.interpolate(local<E>(xi), m);
    if constexpr (K == 1) *out = r; else put(out, r);
}
extern "C" void w_int1(const double * n, const double * xi, const double * v, double * out) { interp<1>(n, xi, v, out); }
extern "C" void w_int2(const double * n, const double * xi, const double * v, double * out) { interp<2>(n, xi, v, out); }
extern "C" void w_int3(const double * n, const double * xi, const double * v, double * out) { interp<3>(n, xi, v, out); }
extern "C" void w_int6(const double * n, const double * xi, const double * v, double * out) { interp<6>(n, xi, v, out); }
'''
CENTRE = {"segment": [0], "triangle": [P.Fraction(1, 3)] * 2, "quad": [0, 0], "tetra": [P.Fraction(1, 4)] * 3, "hexa": [0, 0, 0]}


def run(chk):
    el = EL.Elements(chk, lambda n, i: BODY, tag="c06_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        N, c = EL.NNODES[shape, order], EL.CDIM[shape]
        nin = EL.inputs(n, rot=False) if False else "n"
        L, _, _ = el.run(n, "w_L", [nin, "xi"], N)
        nodes, _, itn = el.run(n, "w_nodes", [nin], N * dim)
        ni, _, it0 = el.run(n, "w_node_i", [nin], N * dim)
        for i in range(N * dim):
            chk.equal(n, f"node({i // dim})[{i % dim}] is row {i // dim} of nodes()", ni[i], nodes[i], EL.src(n, chk, it0))
        if rect:
            for i in range(N):
                for k in range(dim):
                    want = P.var(f"n[{k}]")
                    for j in range(c):
                        want = want + (P.var(f"n[{dim + c + k * dim + j}]") * P.var(f"n[{dim + j}]")).scale(P.Fraction(EL.REF[shape, order][i][j]) / 2)
                    chk.equal(n, f"node {i} coordinate {k} is center + R*(ref * size/2)", nodes[i * dim + k], want, EL.src(n, chk, itn))
        world = []
        for k in range(dim):
            s = P.ZERO
            for i in range(N):
                s = s + L[i] * nodes[i * dim + k]
            world.append(s)
        w, _, it = el.run(n, "w_world", [nin, "xi"], dim)
        for k in range(dim):
            chk.equal(n, f"world_coordinates(xi)[{k}] = sum_i L_i(xi) node_i", w[k], world[k], EL.src(n, chk, it))
        ce, _, it = el.run(n, "w_center", [nin], dim)
        for k in range(dim):
            chk.equal(n, f"center()[{k}] = image of the reference barycentre", ce[k], EL.at(world[k], CENTRE[shape]), EL.src(n, chk, it))
        J, _, it = el.run(n, "w_jac", [nin, "xi"], dim * c)
        xs = [next(iter(P.support(v))) for v in EL.xi_vars(c)]
        for k in range(dim):
            for j in range(c):
                chk.equal(n, f"jacobian(xi)({k},{j}) = d world[{k}] / d xi[{j}]", J[k * c + j], P.diff(world[k], xs[j]), EL.src(n, chk, it))
        for K in (1, 2, 3, 6):
            o, _, it = el.run(n, f"w_int{K}", [nin, "xi", "v"], K)
            for j in range(K):
                s = P.ZERO
                for i in range(N):
                    s = s + L[i] * P.var(f"v[{i * K + j}]")
                chk.equal(n, f"interpolate, {K} components: component {j}", o[j], s, EL.src(n, chk, it))


RULE = ("dataflow from node coordinates, local point and nodal values to the results of world_coordinates, center, jacobian and "
        "interpolate; each must equal, as a polynomial, the combination of shape functions and nodes that defines it")
