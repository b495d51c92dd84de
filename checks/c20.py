"""C20: meshes read from VTK files have the file's points and cells."""
import itertools
from fractions import Fraction

from engine import absint as A, build, poly as P
from checks.c18 import same
from checks.c19 import memory

SRC = '''
#include <stl.hpp>
#include <Caribou/Topology/IO/VTKReader.cpp>
#include <typeinfo>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
typedef long long I;
template <class M> void positions(const M & m, double * o) { *o++ = m.number_of_nodes(); *o++ = m.number_of_domains(); for (I i = 0; i < (I) m.number_of_nodes(); ++i) { const auto p = m.position(i); for (int k = 0; k < (int) p.size(); ++k) *o++ = p[k]; } }
template <class E, class T, class M> void cells(const M & m, I d, I *& o) {
    using D = Domain<E, T>;
    const BaseDomain * b = d < (I) m.number_of_domains() ? m.domain(d) : nullptr;
    if (!b) { *o++ = 0; *o++ = 0; *o++ = 0; *o++ = 0; return; }
    const bool same = &typeid(*b) == &typeid(D);
    *o++ = same; *o++ = b->number_of_elements(); *o++ = m.domain("domain_" + std::to_string(d + 1)) == b; *o++ = b->mesh() == static_cast<const BaseMesh *>(&m);
    if (same) for (I e = 0; e < (I) b->number_of_elements(); ++e) { const auto x = static_cast<const D *>(b)->element_indices(e); for (int i = 0; i < (int) x.size(); ++i) *o++ = x[i]; }
}
'''
# VTK cell type -> (type number, Caribou element per dimension, corners, middle nodes as pairs of corners, VTK positions of the corners, canonical range is [-1, 1])
U = (0, 1)
TRI = [(0, 0), (1, 0), (0, 1)]
QUAD = [(0, 0), (1, 0), (1, 1), (0, 1)]
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
HEX = [p + (z,) for z in U for p in QUAD]
CELLS = {
    "VTK_LINE": (3, "Segment<{D}, Linear>", 1, [(0,), (1,)], [], True),
    "VTK_QUADRATIC_EDGE": (21, "Segment<{D}, Quadratic>", 1, [(0,), (1,)], [(0, 1)], True),
    "VTK_TRIANGLE": (5, "Triangle<{D}, Linear>", 2, TRI, [], False),
    "VTK_QUADRATIC_TRIANGLE": (22, "Triangle<{D}, Quadratic>", 2, TRI, [(0, 1), (1, 2), (2, 0)], False),
    "VTK_QUAD": (9, "Quad<{D}, Linear>", 2, QUAD, [], True),
    "VTK_QUADRATIC_QUAD": (23, "Quad<{D}, Quadratic>", 2, QUAD, [(0, 1), (1, 2), (2, 3), (3, 0)], True),
    "VTK_TETRA": (10, "Tetrahedron<Linear>", 3, TET, [], False),
    "VTK_QUADRATIC_TETRA": (24, "Tetrahedron<Quadratic>", 3, TET, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)], False),
    "VTK_HEXAHEDRON": (12, "Hexahedron<Linear>", 3, HEX, [], True),
    "VTK_QUADRATIC_HEXAHEDRON": (25, "Hexahedron<Quadratic>", 3, HEX, [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)], True),
}
OTHERS = {"VTK_VERTEX": (1, 1), "VTK_WEDGE": (13, 6), "VTK_PYRAMID": (14, 5), "VTK_BIQUADRATIC_QUAD": (28, 9)}     # no element of Caribou
INDEX = ["unsigned long long int", "unsigned long int", "unsigned int"]


def source():
    s = SRC
    for D in (1, 2, 3):
        for t, T in enumerate(INDEX):
            R = f"io::VTKReader<{D}, {T}>"
            s += f'extern "C" void pos{D}_{t}(double * o) {{ const auto r = {R}::Read(std::string("f")); const auto m = r.mesh(); positions(m, o); }}\n'
            for c, (_, e, dim, *_r) in CELLS.items():
                if dim > D:
                    continue
                e = e.replace("{D}", str(D))
                s += f'extern "C" void cells{D}_{t}_{c}(I * o) {{ const auto r = {R}::Read(std::string("f")); const auto m = r.mesh(); *o++ = m.number_of_domains(); cells<{e}, {T}>(m, 0, o); if (m.number_of_domains() > 1) cells<Segment<{D}, Linear>, {T}>(m, 1, o); }}\n'
                s += f'extern "C" void own{D}_{t}_{c}(I * o) {{ auto r = {R}::Read(std::string("f")); I n = 0, * seen = o; r.register_element_type({c}, [seen, &n](Mesh<{D}> & m, const {R}::ElementsIndices & x) -> BaseDomain * {{ ++n; seen[0] = x.rows(); seen[1] = x.cols(); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) seen[3 + i * x.cols() + j] = x(i, j); return nullptr; }}); const auto m = r.mesh(); o[2] = n; o[3 + o[0] * o[1]] = m.number_of_domains(); }}\n'
    for c, (_, e, dim, *_r) in CELLS.items():
        e = e.replace("{D}", str(dim))
        s += f'extern "C" void canon_{c}(double * o) {{ const {e} e; const auto n = e.nodes(); for (int i = 0; i < n.rows(); ++i) for (int j = 0; j < n.cols(); ++j) *o++ = n(i, j); }}\n'
    return s


class File:
    """contents of the file: points (lists of three values) and cells (type, node ids)"""
    def __init__(self, points, cells=(), exists=True):
        self.points, self.cells, self.exists = points, list(cells), exists
        self.types = []
        for t, _ in self.cells:
            if t not in self.types:
                self.types.append(t)

    def of(self, t):
        return [i for i, c in enumerate(self.cells) if c[0] == t]

    def point(self, it, i, k, I):
        if 0 <= i < len(self.points):
            return self.points[i][k]
        it.memory_errors.append((f"point {i} of a file of {len(self.points)} points", it.loc(I)))
        return P.var("outside")

    def hooks(self):
        def c(it, x):
            v = it.num(x)
            v = v.const() if hasattr(v, "const") else v
            return int(v)
        return {
            "op_npoints": lambda it, st, a, I, n: P.K(len(self.points)),
            "op_point": lambda it, st, a, I, n: self.point(it, c(it, a[0]), c(it, a[1]), I),
            "op_ntypes": lambda it, st, a, I, n: P.K(len(self.types)),
            "op_type": lambda it, st, a, I, n: P.K(self.types[c(it, a[0])]),
            "op_ncells": lambda it, st, a, I, n: P.K(len(self.of(c(it, a[0])))),
            "op_cell": lambda it, st, a, I, n: P.K(self.of(c(it, a[0]))[c(it, a[1])]),
            "op_celltype": lambda it, st, a, I, n: P.K(self.cells[c(it, a[0])][0]),
            "op_cellsize": lambda it, st, a, I, n: P.K(len(self.cells[c(it, a[0])][1])),
            "op_cellnode": lambda it, st, a, I, n: self.cells[c(it, a[0])][1][c(it, a[1])],
            "op_total": lambda it, st, a, I, n: P.K(len(self.cells)),
            "op_exists": lambda it, st, a, I, n: P.TRUE if self.exists else P.FALSE,
            "__cxa_allocate_exception": lambda it, st, a, I, n: "dead",
        }


def run(chk):
    P.CANCEL[0] = True
    bc = build.compile_source(source(), "c20", extra=("-I", build.VERIF + "/witness/vtk"), inline=200)
    chk.module(bc)
    canon = {}
    for c, (ty, e, dim, corners, mids, sym) in CELLS.items():
        n = len(corners) + len(mids)
        with chk.guard(c):
            vals, _, w, it, st = chk.eval(bc, f"canon_{c}", [], n * dim)
            pos = [tuple(float(v.const()) for v in vals[i * dim:(i + 1) * dim]) for i in range(n)]
            canon[c] = [tuple((x + 1) / 2 for x in p) if sym else p for p in pos]
    jobs = []
    for D in (1, 2, 3):
        for t, T in enumerate(INDEX):
            jobs.append(lambda D=D, t=t: axes(chk, bc, D, t))
            jobs.append(lambda D=D, t=t: missing(chk, bc, D, t))
            for c in CELLS:
                if CELLS[c][2] <= D and c in canon:
                    jobs.append(lambda D=D, t=t, c=c: cells(chk, bc, D, t, c, canon[c]))
    chk.parallel(jobs)


T = Fraction(1, 1 << 40)
PAT = {"constant": (0, 0, 0), "last differs": (0, 0, -1), "second differs": (0, T, 0), "all differ": (0, 1, -2), "first differs": (0, 1000, 1000), "last one smaller": (0, 0, -T)}


def axes(chk, bc, D, t):
    """the axes kept are those along which the points are not all the same"""
    pats = list(itertools.product(PAT, repeat=3)) if t == 0 else [("last differs", "constant", "all differ"), ("constant", "second differs", "constant"), ("all differ",) * 3]
    for pat in pats:
        subj = f"VTKReader<{D}D, {INDEX[t]}>::mesh, points along x, y, z: {', '.join(pat)}"
        with chk.guard(subj):
            pts = [[P.var("xyz"[k]) + P.K(PAT[pat[k]][i]) for k in range(3)] for i in range(3)]
            kept = [k for k in range(3) if pat[k] != "constant"] if D < 3 else [0, 1, 2]
            vals, _, w, it, st = chk.eval(bc, f"pos{D}_{t}", [], 2 + 3 * D, hooks=File(pts).hooks())
            if len(kept) != D:
                chk.ob(subj, "refused with an exception", all(v is A.UNDEF for v in vals), f"accepted: {vals[:3]}", w)
                continue
            same(chk, subj, "number of nodes and of domains, positions", vals, [P.K(3), P.ZERO] + [pts[i][k] for i in range(3) for k in kept], w)
            memory(chk, subj, "positions", it, w)
    subj = f"VTKReader<{D}D, {INDEX[t]}>::mesh, file without points"
    with chk.guard(subj):
        vals, _, w, it, st = chk.eval(bc, f"pos{D}_{t}", [], 2, hooks=File([]).hooks())
        same(chk, subj, "empty mesh", vals, [P.ZERO, P.ZERO], w)
        memory(chk, subj, "empty mesh", it, w)


def missing(chk, bc, D, t):
    subj = f"VTKReader<{D}D, {INDEX[t]}>::Read of a missing file"
    with chk.guard(subj):
        pts = [[P.var(f"{'xyz'[k]}") + (i if k < D else 0) for k in range(3)] for i in range(3)]
        vals, _, w, it, st = chk.eval(bc, f"pos{D}_{t}", [], 2, hooks=File(pts, exists=False).hooks())
        chk.ob(subj, "refused with an exception", all(v is A.UNDEF for v in vals), f"accepted: {vals[:3]}", w)


def cells(chk, bc, D, t, c, canon):
    ty, e, dim, corners, mids, sym = CELLS[c]
    n = len(corners) + len(mids)
    vtk = [tuple(map(float, p)) for p in corners] + [tuple((x + y) / 2 for x, y in zip(corners[a], corners[b])) for a, b in mids]
    order = [vtk.index(p) for p in canon]                # Caribou's node i is VTK's node order[i]
    pts = [[P.var("xyz"[k]) + (i if k < D else 0) for k in range(3)] for i in range(3)]
    first = [[P.var(f"n{k}") for k in range(n)], [P.var(f"m{k}") for k in range(n)]]
    seg = [P.var("s0"), P.var("s1")]
    for x in first[0] + first[1] + seg:                  # node numbers that the reader's index type can hold
        (((a, _),),) = x.t
        P.Atom.byid[a].lo, P.Atom.byid[a].hi = 0, (1 << 31 if t == 2 else 1 << 62) - 1
    for o, (oty, osz) in OTHERS.items():
        fs = {f"two cells": [(ty, first[0]), (ty, first[1])],
              f"two cells around a {o}": [(ty, first[0]), (oty, [P.K(0)] * osz), (ty, first[1])],
              f"after a {o}": [(oty, [P.K(0)] * osz), (ty, first[0])]}
        if o != "VTK_VERTEX":
            del fs["two cells"]
        elif c != "VTK_LINE":
            fs["mixed with a segment"] = [(ty, first[0]), (3, seg), (ty, first[1])]
        for nm, f in fs.items():
            subj = f"VTKReader<{D}D, {INDEX[t]}>::mesh, {c}, {nm}"
            with chk.guard(subj):
                mine = [x for y, x in f if y == ty]
                want = [2 if "mixed" in nm else 1, 1, len(mine), 1, 1]
                tail = [x[k] for x in mine for k in range(n)]
                extra = [1, 1, 1, 1] + seg if "mixed" in nm else []
                vals, _, w, it, st = chk.eval(bc, f"cells{D}_{t}_{c}", [], len(want) + len(tail) + len(extra), hooks=File(pts, f).hooks())
                num = lambda l: [x if isinstance(x, P.Poly) else P.K(x) for x in l]
                same(chk, subj, "number of domains; element type, number of elements, name and mesh of the domain", vals[:5], num(want), w)
                got = vals[5:5 + len(tail)]
                exp = [x[k] for x in mine for k in order]
                perm = [str(x) for x in got[:n]]
                if nm == "two cells":
                    chk.ob(f"VTKReader, {c}", f"nodes in VTK's order are given Caribou's order; table read: {' '.join(perm)}", all(isinstance(g, P.Poly) and g == x for g, x in zip(got, exp)),
                           f"want {' '.join(str(x) for x in exp[:n])}", w)
                for q, x in enumerate(mine):
                    chk.ob(subj, f"element {q} has each node of the cell exactly once, in the same order for every cell", sorted(map(str, got[q * n:(q + 1) * n])) == sorted(map(str, x)) and
                           [str(v).replace("n", "").replace("m", "") for v in got[q * n:(q + 1) * n]] == [p.replace("n", "") for p in perm], str([str(v) for v in got[q * n:(q + 1) * n]]), w)
                if extra:
                    same(chk, subj, "second domain", vals[5 + len(tail):], num(extra), w)
                memory(chk, subj, "cells", it, w)
    subj = f"VTKReader<{D}D, {INDEX[t]}>::register_element_type({c}, builder)"
    with chk.guard(subj):
        vals, _, w, it, st = chk.eval(bc, f"own{D}_{t}_{c}", [], 4 + 2 * n, hooks=File(pts, [(ty, first[0]), (ty, first[1])]).hooks())
        same(chk, subj, "called once with the node indices of every cell in the file's order, and nothing else is added", vals, [P.K(2), P.K(n), P.K(1)] + first[0] + first[1] + [P.ZERO], w)


RULE = ("dataflow over the LLVM IR of VTKReader compiled against stand-ins for VTK whose points, cell types and node indices are symbolic: positions, domains and index tables of the mesh must be those of the file")
ASSUMPTIONS = ["VTK's interface behaves as in its documentation (stand-ins in witness/vtk)", "files of up to 3 points and 3 cells; loops over points and cells are uniform in the index",
               "libstdc++'s containers as compiled from their headers, with the growth policies of witness/stl.hpp"]
