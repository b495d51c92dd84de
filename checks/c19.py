"""C19: meshes keep the positions they are given and own uniquely named domains."""
import itertools

from engine import absint as A, build, poly as P
from checks.c14 import arr
from checks.c18 import same

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Topology/Mesh.h>
#include <array>
#include <vector>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
typedef long long I;
extern "C" { void op_gone(I id); }
struct BD : public BaseDomain {
    I id; const BaseMesh * m = nullptr;
    explicit BD(I i) : id(i) {} BD(const BD & o) : id(o.id + 10), m(o.m) {}
    ~BD() override { op_gone(id); }
    unsigned long long canonical_dimension() const override { return 1; } unsigned long long number_of_nodes_per_elements() const override { return 2; } unsigned long long number_of_elements() const override { return id; }
    const BaseMesh * mesh() const override { return m; } BaseDomain * clone() const override { return new BD(*this); } void attach_to(const BaseMesh * x) override { if (x == m) return; if (m && x) throw std::logic_error("attached"); m = x; }
};
static const char * const NAMES[] = {"domain", "domain_2", "domain_2 with a name that is longer than sixteen characters"};
inline I id(const BaseDomain * d) { return d ? static_cast<const BD *>(d)->id : -1; }
template <class M, class X> void state(const M & m, X & o) {       // the domains of a mesh as seen by its queries
    *o++ = m.number_of_domains();
    for (auto n : NAMES) *o++ = id(m.domain(std::string(n)));
    for (I i = 0; i < (I) m.number_of_domains(); ++i) { *o++ = id(m.domain(i)); *o++ = m.domain(i)->mesh() == &m; }
}
template <class V> void put(const V & v, double *& o) { for (int k = 0; k < (int) v.size(); ++k) *o++ = v[k]; }
template <class M> void all(const M & m, double * o) { *o++ = m.number_of_nodes(); *o++ = m.dimension(); for (size_t i = 0; i < (size_t) m.number_of_nodes(); ++i) { put(m.position(i), o); put(m.node(i), o); } }
template <class P> void rows(const P & p, double * o) { *o++ = p.rows(); for (int i = 0; i < p.rows(); ++i) for (int j = 0; j < p.cols(); ++j) *o++ = p(i, j); }
template <int D> Mesh<D> mk(const double * x) { std::vector<typename Mesh<D>::WorldCoordinates> v(3); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) v[i][k] = x[i * D + k]; return Mesh<D>(v); }
'''
KINDS = {"std::vector": "std::vector<typename Mesh<{D}>::WorldCoordinates> v(3); for (int i = 0; i < 3; ++i) for (int k = 0; k < {D}; ++k) v[i][k] = x[i * {D} + k];",
         "row major matrix": "Eigen::Matrix<double, 3, {D}, {D} == 1 ? 0 : 1> v; for (int i = 0; i < 3; ++i) for (int k = 0; k < {D}; ++k) v(i, k) = x[i * {D} + k];",
         "column major dynamic matrix": "Eigen::MatrixXd v(3, {D}); for (int i = 0; i < 3; ++i) for (int k = 0; k < {D}; ++k) v(i, k) = x[i * {D} + k];",
         "mapped buffer": "Eigen::Map<const Eigen::Matrix<double, 3, {D}, {D} == 1 ? 0 : 1>> v(x);"}
LISTS = {"array": "const I ix[2] = {a, b};", "std::array": "const std::array<I, 2> ix = {{a, b}};", "std::vector": "std::vector<I> ix(2); ix[0] = a; ix[1] = b;",
         "Eigen column": "Eigen::Matrix<I, 2, 1> ix; ix[0] = a; ix[1] = b;", "Eigen row": "Eigen::Matrix<I, 1, 2> ix; ix[0] = a; ix[1] = b;", "Eigen dynamic": "Eigen::Matrix<I, Eigen::Dynamic, 1> ix(2); ix[0] = a; ix[1] = b;"}
SHAPE = {"as is": "{M} m(v);", "copied": "{M} * q = new {M}(v); {M} m(*q); delete q;", "moved": "{M} * q = new {M}(v); {M} m(std::move(*q)); delete q;",
         "assigned": "{M} * q = new {M}(v); {M} m; m = *q; delete q;", "move assigned": "{M} * q = new {M}(v); {M} m; m = std::move(*q); delete q;"}

# histories of a mesh: a<i><n> adds domain i under name n, t<i><n> the same and must throw, n<n> removes by name, d<i> removes by pointer (1 or 0 reported)
HIST = ["", "a00", "a00 a11", "a00 a11 a22", "a00 a11 a22 n0", "a00 a11 a22 n1", "a00 a11 a22 n2", "a00 a11 a22 d0", "a00 a11 a22 d1", "a00 a11 a22 d2", "a00 n1", "a00 d1", "n0", "a00 t10", "a00 a11 t20",
        "a00 a11 t21", "a00 a00", "a00 a11 a11", "a00 t01", "a00 a11 n0 a20", "a00 a11 n1 n0", "a00 a11 d1 d0", "a00 a11 d1 a21", "a00 a11 a22 n1 n1", "a02 a11 a20 n2 n0", "a02 a11 a20 n1", "a02 a11 a20 n0", "a02 a11 n0", "a02 n1", "a02 a10 n1", "a01 a12 a20 d2 n1"]


def program(h):
    """C++ statements of a history, and what the queries must answer: (list of (domain, name), reports, destroyed so far)"""
    code, doms, reports, gone, made = [], [], [], [], set()
    for op in h.split():
        k, a, b = op[0], int(op[1]), int(op[2]) if len(op) > 2 else None
        if k in "at" and a not in made:
            code.append(f"BD * b{a} = new BD({a});")
            made.add(a)
        if k == "a":
            code.append(f"m.add_domain(b{a}, std::string(NAMES[{b}]));")
            if (a, b) not in doms:
                doms.append((a, b))
        elif k == "t":
            code.append(f"try {{ m.add_domain(b{a}, std::string(NAMES[{b}])); *o++ = 0; }} catch (...) {{ *o++ = 1; }}")
            reports.append(1)
        elif k == "n":
            code.append(f"*o++ = m.remove_domain(NAMES[{a}]);")
            hit = [x for x in doms if x[1] == a]
            reports.append(int(bool(hit)))
            gone += [x[0] for x in hit]
            doms = [x for x in doms if x[1] != a]
        else:
            if a not in made:
                code.append(f"BD * b{a} = new BD({a});")
                made.add(a)
            code.append(f"*o++ = m.remove(b{a});")
            hit = [x for x in doms if x[0] == a]
            reports.append(int(bool(hit)))
            gone += [x[0] for x in hit]
            doms = [x for x in doms if x[0] != a]
    return " ".join(code), doms, reports, gone


def state(doms, shift=0):
    by = {n: d + shift for d, n in doms}
    r = [len(doms)] + [by.get(n, -1) for n in range(3)]
    for d, n in doms:
        r += [d + shift, 1]
    return r


def source():
    s = SRC
    for D in (1, 2, 3):
        M = f"Mesh<{D}>"
        for k, decl in enumerate(KINDS.values()):
            for q, sh in enumerate(SHAPE.values()):
                s += f'extern "C" void p{D}_{k}_{q}(const double * x, double * o) {{ {decl.replace("{D}", str(D))} {sh.replace("{M}", M)} all(m, o); }}\n'
        for k, decl in enumerate(LISTS.values()):
            s += f'extern "C" void x{D}_{k}(const double * x, I a, I b, double * o) {{ const auto m = mk<{D}>(x); {decl} rows(m.positions(ix), o); }}\n'
    for k, h in enumerate(HIST):
        code = program(h)[0]
        if "t" in h:
            continue
        s += f'extern "C" void h{k}(I * o) {{ Mesh<3> m; {code} state(m, o); }}\n'
        s += f'extern "C" void hc{k}(I * o) {{ Mesh<3> * p = new Mesh<3>; {{ Mesh<3> & m = *p; {code} }} Mesh<3> m(*p); delete p; state(m, o); }}\n'
        s += f'extern "C" void hm{k}(I * o) {{ Mesh<3> * p = new Mesh<3>; {{ Mesh<3> & m = *p; {code} }} Mesh<3> m(std::move(*p)); delete p; state(m, o); }}\n'
        s += f'extern "C" void ha{k}(I * o) {{ Mesh<3> * p = new Mesh<3>; {{ Mesh<3> & m = *p; {code} }} Mesh<3> m; m.add_domain(new BD(5), std::string("other")); m = std::move(*p); delete p; state(m, o); }}\n'
        s += f'extern "C" void hd{k}(I * o) {{ Mesh<3> m; {code} const auto l = m.domains(); *o++ = l.size(); for (const auto & e : l) {{ *o++ = id(e.second); *o++ = m.domain(e.first) == e.second; }} }}\n'
    for k, h in enumerate(HIST):
        if "t" in h:     # the refused addition comes last: it must throw
            code = program(" ".join(op if op[0] != "t" else "a" + op[1:] for op in h.split()))[0]
            s += f'extern "C" void t{k}(I * o) {{ Mesh<3> m; {code} *o = 1; }}\n'
    s += 'extern "C" void tother(I * o) { Mesh<3> m, q; BD * b0 = new BD(0); m.add_domain(b0, std::string(NAMES[0])); q.add_domain(b0, std::string(NAMES[0])); *o = 1; }\n'
    return s


def run(chk):
    P.CANCEL[0] = True
    bc = build.compile_source(source(), "c19", extra=("-D_GLIBCXX_EXTERN_TEMPLATE=0",))
    chk.module(bc)
    jobs = []
    for D in (1, 2, 3):
        for k, nm in enumerate(KINDS):
            jobs.append(lambda D=D, k=k, nm=nm: positions(chk, bc, D, k, nm))
        jobs.append(lambda D=D: lists(chk, bc, D))
    for k, h in enumerate(HIST):
        jobs.append(lambda k=k, h=h: history(chk, bc, k, h))
    jobs.append(lambda: refused(chk, bc, "tother", "a domain of another mesh"))
    chk.parallel(jobs)


def gone(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "gone", it.num(args[0]), it.loc(I)),)


def interp(chk, bc):
    return chk.interp(bc, hooks={"op_gone": gone, "__cxa_allocate_exception": lambda it, st, a, I, n: "dead"})


def memory(chk, subj, rule, it, w):
    chk.ob(subj, rule + ": no freed memory is used", not it.memory_errors, "; ".join(f"{a} at {b}" for a, b in it.memory_errors[:3]), w)


def positions(chk, bc, D, k, nm):
    for q, sh in enumerate(SHAPE):
        subj = f"Mesh<{D}D> from a {nm}, {sh}"
        with chk.guard(subj):
            x = [P.var(f"x[{i}]") for i in range(3 * D)]
            vals, _, w, it, st = chk.eval(bc, f"p{D}_{k}_{q}", [arr("x", x)], 2 + 3 * (D + 3), it=interp(chk, bc))
            want = [P.K(3), P.K(D)]
            for i in range(3):
                want += x[i * D:(i + 1) * D] + x[i * D:(i + 1) * D] + [P.ZERO] * (3 - D)
            same(chk, subj, "number of nodes, dimension, position and node coordinates", vals, want, w)
            memory(chk, subj, "positions", it, w)


def lists(chk, bc, D):
    for k, nm in enumerate(LISTS):
        subj = f"Mesh<{D}D>::positions({nm})"
        for a, b in ((0, 1), (2, 0), (1, 1)):
            with chk.guard(subj):
                x = [P.var(f"x[{i}]") for i in range(3 * D)]
                vals, _, w, it, st = chk.eval(bc, f"x{D}_{k}", [arr("x", x), P.K(a), P.K(b)], 1 + 2 * D, it=interp(chk, bc))
                same(chk, subj, f"nodes {a}, {b}", vals, [P.K(2)] + x[a * D:(a + 1) * D] + x[b * D:(b + 1) * D], w)


def history(chk, bc, k, h):
    text = " ".join(h.split()) or "empty mesh"
    code, doms, reports, dead = program(h)
    subj = f"Mesh domains [{text}]"
    if "t" in h:
        return refused(chk, bc, f"t{k}", text)
    made = sorted({int(op[1]) for op in h.split() if op[0] in "ad"})
    added = sorted({int(op[1]) for op in h.split() if op[0] == "a"})
    for f, what, shift, extra in (("h", "queries", 0, []), ("hc", "copied mesh, original destroyed", 10, []), ("hm", "moved mesh, original destroyed", 0, []), ("ha", "mesh assigned over another", 0, [5]),
                                  ("hd", "list of domains", 0, [])):
        with chk.guard(subj):
            want = reports + (state(doms, shift) if f != "hd" else [len(doms)] + [y for d, _ in doms for y in (d, 1)])
            vals, _, w, it, st = chk.eval(bc, f"{f}{k}", [], len(want), it=interp(chk, bc))
            same(chk, subj, what, vals, [P.K(x) for x in want], w)
            memory(chk, subj, what, it, w)
            died = sorted(str(e[2]) for e in st.events if e[1] == "gone" and e[0] is not P.FALSE)
            exp = sorted(str(x) for x in added + extra + ([d + 10 for d, _ in doms] if shift else []))
            chk.ob(subj, what + ": every domain given to the mesh is destroyed exactly once by its end", died == exp, f"destroyed: {died}, given: {exp}", w)


def refused(chk, bc, fn, text):
    subj = f"Mesh::add_domain [{text}]"
    with chk.guard(subj):
        vals, ret, w, it, st = chk.eval(bc, fn, [], 1, it=interp(chk, bc))
        chk.ob(subj, "refused with an exception", not (isinstance(vals[0], P.Poly) and vals[0] == P.ONE), "accepted", w)


RULE = ("dataflow over the LLVM IR of Mesh with tracked heap objects: positions, nodes and look-ups must be the given coordinates for symbolic positions; for every listed history of additions and removals "
        "the queries, the mesh each domain is attached to and the destruction of domains must follow the list of named domains, also through copies, moves and assignments")
ASSUMPTIONS = ["3 nodes with arbitrary coordinates; up to 3 domains, histories as listed in the check", "libstdc++'s containers and strings as compiled from their headers"]
