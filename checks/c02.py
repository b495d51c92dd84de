"""C02: the shape derivatives are the exact gradient of the shape functions."""
from engine import elements as EL, poly as P

BODY = '''
extern "C" void w_L(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.L(local<E>(xi))); }
extern "C" void w_dL(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.dL(local<E>(xi))); }
'''


def run(chk):
    el = EL.Elements(chk, lambda n, i: BODY, tag="c02_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        N, c = EL.NNODES[shape, order], EL.CDIM[shape]
        L, _, _ = el.run(n, "w_L", ["n", "xi"], N)
        dL, _, it = el.run(n, "w_dL", ["n", "xi"], N * c)
        xs = [next(iter(P.support(v))) for v in EL.xi_vars(c)]
        for i in range(N):
            eq = {q: False for q in P.conditions(L[i]) if q.kind == "eq"} if isinstance(L[i], P.Poly) else {}
            if eq:
                chk.equal(n, f"L[{i}] takes no special value at isolated points, so that it has a gradient", L[i], P.assume(L[i], eq), EL.src(n, chk, it))
        for k in range(c):
            s = P.ZERO
            for i in range(N):
                try:
                    want = P.diff(L[i], xs[k])
                except (ValueError, AttributeError) as ex:
                    chk.ob(n, f"dL[{i}]/dxi[{k}]", None, str(ex), EL.src(n, chk, it))
                    continue
                chk.equal(n, f"dL[{i}]/dxi[{k}] = gradient of L[{i}]", dL[i * c + k], want, EL.src(n, chk, it))
                if isinstance(dL[i * c + k], P.Poly):
                    s = s + dL[i * c + k]
            chk.equal(n, f"sum_i dL[i]/dxi[{k}] = 0", s, P.ZERO, EL.src(n, chk, it))


RULE = ("dataflow over the LLVM IR of L and dL of every element type gives each result as a polynomial of the local "
        "coordinates; dL[i][k] must equal the formal derivative of L[i] with respect to coordinate k")
