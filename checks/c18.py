"""C18: domains hand out the indices and elements they were given, and copies stay valid."""
from engine import absint as A, build, num, poly as P
from engine.check import havoc, unknown
from checks.c14 import arr

ELEMS = [("Segment<_1D,Linear>", 1, 2), ("Segment<_3D,Quadratic>", 3, 3), ("Triangle<_2D,Linear>", 2, 3), ("Quad<_3D,Linear>", 3, 4), ("Tetrahedron<Linear>", 3, 4), ("Hexahedron<Linear>", 3, 8),
         ("Triangle<_3D,Quadratic>", 3, 6), ("Tetrahedron<Quadratic>", 3, 10)]
INDEX = [("unsigned long long", 8), ("int", 4), ("long", 8), ("unsigned int", 4)]
ROWS = 3

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Topology/BaseMesh.h>
#include <Caribou/Topology/Domain.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
typedef long long I;
extern "C" { double op_node(I i, int k); I op_use(const void * p); }
struct MM : public BaseMesh {
    unsigned long long dimension() const override { return 3; } unsigned long long number_of_nodes() const override { return 100; } unsigned long long number_of_domains() const override { return 1; }
    Eigen::Vector3d node(const unsigned long long & i) const override { Eigen::Vector3d r; for (int k = 0; k < 3; ++k) r[k] = op_node(i, k); return r; }
    BaseDomain * add_domain(BaseDomain * d) override { return d; } BaseDomain * add_domain(BaseDomain * d, const std::string &) override { return d; }
};
struct Field { double operator()(Eigen::Index i, Eigen::Index j) const { return op_node(i, j); } };
template <class D> void indices(const D & d, I e, I * o) { const auto x = d.element_indices(e); for (int i = 0; i < (int) x.size(); ++i) o[i] = x[i]; }
template <class D> void nodes(const D & d, I e, double * o) { const auto x = d.element(e); const auto m = x.nodes(); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *o++ = m(i, j); }
template <class D> void nodesp(const D & d, I e, double * o) { const auto x = d.element(e, Eigen::Matrix<double, Eigen::Dynamic, D::Dimension>::NullaryExpr(100, (int) D::Dimension, Field())); const auto m = x.nodes(); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *o++ = m(i, j); }
template <class D, class T> void sizes(const D & d, const BaseMesh & m, I * o) { o[0] = d.number_of_elements(); o[1] = d.number_of_nodes_per_elements(); o[2] = d.canonical_dimension(); o[3] = d.mesh() == &m; }
template <class D, class T> typename D::ElementsIndices table(const T * x) { typename D::ElementsIndices t(3, (int) D::ElementIndices::RowsAtCompileTime); for (int i = 0; i < t.rows(); ++i) for (int j = 0; j < t.cols(); ++j) t(i, j) = *x++; return t; }
template <class D> D * kept(const BaseMesh & m, const typename D::ElementsIndices & t) { return new D(&m, t); }
'''
ARG = "const {T} * x"
WAYS = {   # ways of giving the indices: declarations making D d from x
    "copied matrix": "MM m; const auto t = table<D>(x); D d(&m, t);",
    "copied matrix (not const)": "MM m; auto t = table<D>(x); D d(&m, t);",
    "copied temporary": "MM m; D d(&m, table<D>(x));",
    "referenced matrix": "MM m; const auto t = table<D>(x); D d(&m, &t);",
    "buffer": "MM m; D d(&m, x, {R}, {N});",
    "copy of a domain, original destroyed": "MM m; D * a = new D(&m, table<D>(x)); D d(*a); delete a;",
    "copy of a domain on a buffer": "MM m; D * a = new D(&m, x, {R}, {N}); D d(*a); delete a;",
    "clone, original destroyed": "MM m; D * a = new D(&m, table<D>(x)); D * c = static_cast<D *>(a->clone()); delete a; D & d = *c;",
    "moved domain": "MM m; D * a = new D(&m, table<D>(x)); D d(std::move(*a)); delete a;",
    "moved domain on a buffer": "MM m; D * a = new D(&m, x, {R}, {N}); D d(std::move(*a)); delete a;",
    "swapped domains": "MM m; D * a = new D(&m, table<D>(x)); D d(&m, table<D>(x + 1)); swap(d, *a); delete a;",
    "swapped domains, second": "MM m; D * a = new D(&m, table<D>(x)); D d(&m, table<D>(x + 1)); swap(*a, d); delete a;",
    "swapped domains on buffers": "MM m; D * a = new D(&m, x, {R}, {N}); D d(&m, x + 1, {R}, {N}); swap(d, *a); delete a;",
    "swapped domains on buffers, second": "MM m; D * a = new D(&m, x, {R}, {N}); D d(&m, x + 1, {R}, {N}); swap(*a, d); delete a;",
    "swapped with a domain on a buffer": "MM m; D * a = new D(&m, table<D>(x)); D d(&m, x + 1, {R}, {N}); swap(d, *a); delete a;",
    "swapped with a domain on a buffer, second": "MM m; D * a = new D(&m, x, {R}, {N}); D d(&m, table<D>(x + 1)); swap(*a, d); delete a;",
    "copy of a copy": "MM m; D * a = new D(&m, table<D>(x)); D * b = new D(*a); delete a; D d(*b); delete b;",
}


def source(elems):
    s = SRC
    for i, (t, dim, nn) in enumerate(elems):
        for j, (ty, _) in enumerate(INDEX if i < 3 else INDEX[:2]):
            pre = f"using D = caribou::topology::Domain<{t}, {ty}>;"
            for w, (way, decl) in enumerate(WAYS.items()):
                decl = decl.replace("{R}", str(ROWS)).replace("{N}", str(nn))
                post = "delete c;" if "D * c" in decl else ""
                s += f'extern "C" void s{i}_{j}_{w}(const {ty} * x, I * o) {{ {pre} {decl} sizes<D, {ty}>(d, m, o); {post} }}\n'
                s += f'extern "C" void i{i}_{j}_{w}(const {ty} * x, I e, I * o) {{ {pre} {decl} indices(d, e, o); {post} }}\n'
                if j == 0:
                    s += f'extern "C" void e{i}_{j}_{w}(const {ty} * x, I e, double * o) {{ {pre} {decl} nodes(d, e, o); {post} }}\n'
            s += f'extern "C" void st{i}_{j}(const {ty} * x, I n, I outer, I inner, I e, I * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); indices(d, e, o); }}\n'
            s += f'extern "C" void stc{i}_{j}(const {ty} * x, I n, I outer, I inner, I e, I * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); const D c(d); indices(c, e, o); }}\n'
            s += f'extern "C" void stm{i}_{j}(const {ty} * x, I n, I outer, I inner, I e, I * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); const D c(std::move(d)); indices(c, e, o); }}\n'
            s += f'extern "C" void ste{i}_{j}(const {ty} * x, I n, I outer, I inner, I e, double * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); nodes(d, e, o); }}\n'
            s += f'extern "C" void stp{i}_{j}(const {ty} * x, I n, I outer, I inner, I e, double * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); nodesp(d, e, o); }}\n'
            s += f'extern "C" void stn{i}_{j}(const {ty} * x, I n, I outer, I inner, I * o) {{ {pre} MM m; D d(&m, x, n, {nn}, outer, inner); sizes<D, {ty}>(d, m, o); }}\n'
            s += f'extern "C" I at{i}_{j}(const {ty} * x) {{ {pre} MM m, n; D d(nullptr, x, 1, {nn}); d.attach_to(&m); d.attach_to(&m); return d.mesh() == &m; }}\n'
            s += f'extern "C" I att{i}_{j}(const {ty} * x) {{ {pre} MM m, n; D d(&m, x, 1, {nn}); d.attach_to(&n); return 1; }}\n'
    return s


def entry(it, st, args, I, name):
    return P.apoly(P.atom("fn", "node", it.num(args[0]), it.num(args[1])))


def node(i, k):
    return P.apoly(P.atom("fn", "node", i, P.K(k)))


class Ints:
    """array of indices: the cell at byte offset o holds the symbol x[o/size]"""
    def __init__(self, size):
        self.size = size

    def at(self, off):
        return P.apoly(P.atom("fn", "index", off, isint=True, lo=0, hi=10**6))

    def hook(self, it, st, p, t):
        return self.at(p.off)


def run(chk):
    P.CANCEL[0] = True
    jobs = []
    for i in range(len(ELEMS)):
        jobs.append(lambda i=i: element(chk, i))
    chk.parallel(jobs)


def element(chk, i):
    t, dim, nn = ELEMS[i]
    elems = [ELEMS[i]]
    ni = INDEX if i < 3 else INDEX[:2]
    src = SRC + "\n".join(l for l in source(ELEMS[:i + 1]).splitlines() if any(f' {p}{i}_' in l for p in ("s", "i", "e", "st", "stc", "stm", "ste", "stp", "stn", "at", "att")))
    bc = build.compile_source(src, f"c18_{i}")
    for j, (ty, size) in enumerate(ni):
        name = f"Domain<{t}, {ty}>"
        strided(chk, bc, name, i, j, ty, size, dim, nn)
        for w, way in enumerate(WAYS):
            ways(chk, bc, name, i, j, w, way, size, dim, nn)
        attach(chk, bc, name, i, j)


def call(chk, bc, fn, ints, args, nout):
    it = chk.interp(bc, hooks={"op_node": entry, "extload": ints.hook, "__cxa_allocate_exception": lambda it, st, a, I, n: "dead"})
    st = A.State()
    vals, ret, w, it, st = chk.eval(bc, fn, [A.Ptr("ext:indices", P.ZERO)] + args, nout, it=it, state=st)
    return vals, ret, w, it, st


def same(chk, subj, rule, got, want, w):
    for k, (x, y) in enumerate(zip(got, want)):
        ok = isinstance(x, P.Poly) and x == y
        if not ok and (unknown(x) or havoc(x, y)):
            ok = None
        chk.ob(subj, f"{rule} [{k}]", ok, f"is {x}, must be {y}"[:300], w)


def memory(chk, subj, rule, it, st, w):
    chk.ob(subj, rule + ": no freed memory is used", not it.memory_errors, "; ".join(f"{a} at {b}" for a, b in it.memory_errors[:3]), w)


def strided(chk, bc, name, i, j, ty, size, dim, nn):
    n, e, so, si = (P.var(x, isint=True, lo=1, hi=10**6) for x in ("n", "e", "outer", "inner"))
    x = Ints(size)
    idx = [x.at((e * so + si * P.K(k)).scale(size)) for k in range(nn)]
    for f, what in (("st", "element_indices"), ("stc", "element_indices of a copy"), ("stm", "element_indices of a moved domain")):
        with chk.guard(name):
            vals, _, w, it, st = call(chk, bc, f"{f}{i}_{j}", x, [n, so, si, e], nn)
            same(chk, name, f"{what}: buffer with any strides", vals, idx, w)
    for f, what in (("ste", "element: positions of its nodes in the mesh"), ("stp", "element: rows of the given positions")):
        with chk.guard(name):
            vals, _, w, it, st = call(chk, bc, f"{f}{i}_{j}", x, [n, so, si, e], nn * dim)
            same(chk, name, what, vals, [node(a, k) for a in idx for k in range(dim)], w)
    with chk.guard(name):
        vals, _, w, it, st = call(chk, bc, f"stn{i}_{j}", x, [n, so, si], 4)
        cd = {"S": 1, "T": 2, "Q": 2, "H": 3}[ELEMS[i][0][0]]
        cd = 3 if ELEMS[i][0].startswith("Tetra") else cd
        same(chk, name, "number of elements, of nodes per element, canonical dimension, mesh", vals, [n, P.K(nn), P.K(cd), P.ONE], w)


def ways(chk, bc, name, i, j, w_, way, size, dim, nn):
    x = Ints(size)
    off = 1 if way == "swapped" else 0
    tab = [[x.at(P.K((r * nn + k) * size)) for k in range(nn)] for r in range(ROWS)]
    with chk.guard(name):
        vals, _, w, it, st = call(chk, bc, f"s{i}_{j}_{w_}", x, [], 4)
        same(chk, name, f"{way}: number of elements, of nodes per element", vals[:2], [P.K(ROWS), P.K(nn)], w)
        same(chk, name, f"{way}: attached to the mesh", vals[3:4], [P.ONE], w)
        memory(chk, name, way, it, st, w)
    for e in range(ROWS):
        with chk.guard(name):
            vals, _, w, it, st = call(chk, bc, f"i{i}_{j}_{w_}", x, [P.K(e)], nn)
            same(chk, name, f"{way}: indices of element {e}", vals, tab[e], w)
            memory(chk, name, f"{way}: indices of element {e}", it, st, w)
    if j == 0:
        with chk.guard(name):
            vals, _, w, it, st = call(chk, bc, f"e{i}_{j}_{w_}", x, [P.ONE], nn * dim)
            same(chk, name, f"{way}: nodes of element 1", vals, [node(a, k) for a in tab[1] for k in range(dim)], w)
            memory(chk, name, f"{way}: nodes of element 1", it, st, w)


def attach(chk, bc, name, i, j):
    x = Ints(8)
    with chk.guard(name):
        _, ret, w, it, st = call(chk, bc, f"at{i}_{j}", x, [], 0)
        ok = ret is P.TRUE or isinstance(ret, P.Poly) and ret == P.ONE
        chk.ob(name, "attach_to: an orphan domain gets its mesh, again is accepted", ok, str(ret), w)
    with chk.guard(name):
        _, ret, w, it, st = call(chk, bc, f"att{i}_{j}", x, [], 0)
        chk.ob(name, "attach_to: a domain of another mesh is refused", not isinstance(ret, P.Poly), str(ret), w)


RULE = ("dataflow over the LLVM IR of Domain: indices and element nodes must be the entries of the given table for a symbolic element, strides and table (any element type and index type), "
        "also through copies, clones, moves and swaps once the original is destroyed (heap objects are tracked: no read of freed memory)")
ASSUMPTIONS = ["element index within the domain", "tables of 3 elements for the ways that copy them; any size and strides for buffers"]
