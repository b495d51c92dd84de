"""C03: quadrature rules: count, positivity, location and exactness."""
import itertools
from fractions import Fraction
from math import factorial

from engine import absint as A, elements as EL, poly as P

BODY = '''
extern "C" void w_gauss(const double * n, double * out) {
    const E e = MAKE(n);
    out[0] = static_cast<double>(E::NumberOfGaussNodesAtCompileTime);
    out[1] = static_cast<double>(e.number_of_gauss_nodes());
    out[2] = static_cast<double>(e.gauss_nodes().size());
    double * o = out + 3;
    for (const auto & g : e.gauss_nodes()) { *o++ = g.weight; put(o, g.position); }
}
extern "C" void w_gauss_i(const double * n, double * out) {
    const E e = MAKE(n);
    double * o = out;
    for (int i = 0; i < COUNT; ++i) { const auto & g = e.gauss_node(i); *o++ = g.weight; put(o, g.position); }
}
'''
# (number of points, exactness): total degree on simplices, degree per variable on tensor shapes
SPEC = {("segment", "Linear"): (1, 1), ("segment", "Quadratic"): (2, 3),
        ("triangle", "Linear"): (1, 1), ("triangle", "Quadratic"): (3, 2),
        ("quad", "Linear"): (4, 3), ("quad", "Quadratic"): (4, 3),
        ("tetra", "Linear"): (1, 1), ("tetra", "Quadratic"): (4, 2),
        ("hexa", "Linear"): (8, 3), ("hexa", "Quadratic"): (8, 3)}


def integral(shape, m):
    if shape in ("triangle", "tetra"):
        r = Fraction(1)
        for a in m:
            r *= factorial(a)
        return r / factorial(sum(m) + len(m))
    r = Fraction(1)
    for a in m:
        r *= 0 if a % 2 else Fraction(2, a + 1)
    return r


def inside(shape, p):
    e = Fraction(1, 10**9)
    if shape in ("triangle", "tetra"):
        return all(x >= -e for x in p) and sum(p) <= 1 + e
    return all(-1 - e <= x <= 1 + e for x in p)


def run(chk):
    el = EL.Elements(chk, lambda n, i: f"#define COUNT {SPEC[i[1], i[2]][0]}\n" + BODY, tag="c03_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        c = EL.CDIM[shape]
        K, deg = SPEC[shape, order]
        g, _, it = el.run(n, "w_gauss", ["n"])
        w = EL.src(n, chk, it)
        for i, k in enumerate(("declared number of integration points", "number_of_gauss_nodes()", "gauss_nodes().size()")):
            chk.equal(n, f"{k} = {K} = size of the rule", g.get(i, A.UNDEF), P.K(K), w)
        size = g[2].const() if isinstance(g.get(2), P.Poly) else None
        if size is None:
            chk.ob(n, "the rule is a constant table", None, repr(g.get(2)), w)
            continue
        pts = []
        bad = False
        for i in range(int(size)):
            row = [g.get(3 + i * (c + 1) + j, A.UNDEF) for j in range(c + 1)]
            if not all(isinstance(x, P.Poly) and x.const() is not None for x in row):
                chk.ob(n, f"integration point {i} is a constant", False if not all(isinstance(x, P.Poly) for x in row) else None,
                       repr(row), w)
                bad = True
                continue
            row = [Fraction(x.const()) for x in row]
            pts.append((row[0], row[1:]))
            chk.ob(n, f"weight {i} is positive", row[0] > 0, str(float(row[0])), w)
            chk.ob(n, f"integration point {i} lies in the reference element", inside(shape, row[1:]), str([float(x) for x in row[1:]]), w)
        if bad:
            continue
        gi, _, it2 = el.run(n, "w_gauss_i", ["n"])
        for i in range(min(K, int(size))):
            for j in range(c + 1):
                chk.equal(n, f"gauss_node({i}) is entry {i} of gauss_nodes()", gi.get(i * (c + 1) + j, A.UNDEF), g[3 + i * (c + 1) + j],
                          EL.src(n, chk, it2))
        for m in itertools.product(range(deg + 1), repeat=c):
            if shape in ("triangle", "tetra") and sum(m) > deg:
                continue
            s = Fraction(0)
            for wt, p in pts:
                t = wt
                for x, a in zip(p, m):
                    t *= x ** a
                s += t
            want = integral(shape, m)
            chk.ob(n, "integrates monomial " + "*".join(f"x{i}^{a}" for i, a in enumerate(m)) + " exactly",
                   abs(s - want) < Fraction(1, 10**8), f"sum of weights*monomial = {float(s):.12g}, integral = {float(want):.12g}", w)


RULE = ("constant propagation through the IR of the integration-point tables of every element type; moment equations of "
        "every monomial up to the rule's degree, positivity, location and the three published counts")
ASSUMPTIONS = ["moments compared with tolerance 1e-8 (the tables are rounded decimals)"]
