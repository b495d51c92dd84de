"""C01: shape functions are a nodal basis: sum to one everywhere, Kronecker delta at the reference nodes."""
import itertools
import math

from engine import elements as EL, poly as P

BODY = '''
extern "C" void w_L(const double * n, const double * xi, double * out) {
    const E e = MAKE(n); put(out, e.L(local<E>(xi)));
}
extern "C" void w_default(const double *, double * out) { const E e; put(out, e.nodes()); }
extern "C" void w_count(const double *, double * out) {
    const E e; out[0] = static_cast<double>(NN<E>); out[1] = static_cast<double>(e.number_of_nodes());
    out[2] = static_cast<double>(e.nodes().rows()); out[3] = CD<E>; out[4] = DD<E>;
}
'''


def run(chk):
    el = EL.Elements(chk, lambda n, i: BODY, tag="c01_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        N, c = EL.NNODES[shape, order], EL.CDIM[shape]
        L, _, it = el.run(n, "w_L", ["n", "xi"], N)
        w = EL.src(n, chk, it)
        cnt, _, it2 = el.run(n, "w_count", ["n"], 5)
        for i, (k, want) in enumerate(zip(("static node count", "number_of_nodes()", "rows of nodes()", "canonical dimension",
                                           "world dimension"), (N, N, N, c, dim))):
            chk.equal(n, k, cnt[i], P.K(want), EL.src(n, chk, it2))
        allowed = set()
        for v in EL.xi_vars(c):
            allowed |= P.support(v)
        for i in range(N):
            if not isinstance(L[i], P.Poly):
                chk.ob(n, f"L[{i}] is a value", False, repr(L[i]), w)
                L[i] = P.ZERO
            extra = {a for a in P.support(L[i]) if a not in allowed}
            # independence of the node positions: syntactic, or semantically zero derivative
            if not extra:
                chk.ob(n, f"L[{i}] depends on the local point only", True, "", w)
            else:
                chk.equal(n, f"L[{i}] depends on the local point only", L[i],
                          P.subst(L[i], {a: P.var("other " + a.args[0]) for a in extra}), w)
        s = P.ZERO
        for x in L:
            s = s + x
        chk.equal(n, "partition of unity: sum_i L_i(xi) = 1 for all xi", s, P.ONE, w)
        x = EL.xi_vars(c)
        for e in itertools.product(range(3), repeat=c):
            if 0 < sum(e) <= (1 if order == "Linear" else 2):
                p, want = P.ZERO, P.ONE
                for k in range(c):
                    want = want * x[k] ** e[k]
                for i in range(N):
                    q = P.K(math.prod(P.Fraction(EL.REF[shape, order][i][k]) ** e[k] for k in range(c)))
                    p = p + L[i] * q
                chk.equal(n, f"the monomial of exponents {e} is interpolated exactly at every local point", p, want, w)
        nodes, _, it3 = el.run(n, "w_default", ["n"], N * dim)
        for j in range(N):
            for k in range(dim):
                want = EL.REF[shape, order][j][k] if k < c else 0
                chk.equal(n, f"reference node {j}, coordinate {k}", nodes[j * dim + k], P.K(want), EL.src(n, chk, it3))
            for i in range(N):
                chk.equal(n, f"L[{i}] at reference node {j}", EL.at(L[i], EL.REF[shape, order][j]),
                          P.ONE if i == j else P.ZERO, w)


RULE = ("dataflow over the LLVM IR of the shape function evaluation of every element type: the abstract value of each "
        "output is a polynomial in the local coordinates; partition of unity, Kronecker delta and reproduction of the monomials of the element's order are polynomial identities")
