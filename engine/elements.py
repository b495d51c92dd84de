"""Witness generation for the element families and access to their analysed operations."""
from . import absint as A
from . import build, check, poly as P

# name: (C++ type, reference shape, order, world dimension, rectangular?)
ELEMENTS = {}
for d in (1, 2, 3):
    for o in ("Linear", "Quadratic"):
        ELEMENTS[f"Segment<{d}D,{o}>"] = (f"Segment<_{d}D,{o}>", "segment", o, d, False)
for d in (2, 3):
    for o in ("Linear", "Quadratic"):
        ELEMENTS[f"Triangle<{d}D,{o}>"] = (f"Triangle<_{d}D,{o}>", "triangle", o, d, False)
        ELEMENTS[f"Quad<{d}D,{o}>"] = (f"Quad<_{d}D,{o}>", "quad", o, d, False)
        ELEMENTS[f"RectangularQuad<{d}D,{o}>"] = (f"RectangularQuad<_{d}D,{o}>", "quad", o, d, True)
for o in ("Linear", "Quadratic"):
    ELEMENTS[f"Tetrahedron<{o}>"] = (f"Tetrahedron<{o}>", "tetra", o, 3, False)
    ELEMENTS[f"Hexahedron<{o}>"] = (f"Hexahedron<{o}>", "hexa", o, 3, False)
    ELEMENTS[f"RectangularHexahedron<{o}>"] = (f"RectangularHexahedron<{o}>", "hexa", o, 3, True)

CDIM = {"segment": 1, "triangle": 2, "quad": 2, "tetra": 3, "hexa": 3}
# reference nodes, from the documentation of each element
HEXA8 = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
NNODES = {("segment", "Linear"): 2, ("segment", "Quadratic"): 3, ("triangle", "Linear"): 3, ("triangle", "Quadratic"): 6,
          ("quad", "Linear"): 4, ("quad", "Quadratic"): 8, ("tetra", "Linear"): 4, ("tetra", "Quadratic"): 10,
          ("hexa", "Linear"): 8, ("hexa", "Quadratic"): 20}
H = P.Fraction(1, 2)
REF = {
    ("segment", "Linear"): [(-1,), (1,)],
    ("segment", "Quadratic"): [(-1,), (1,), (0,)],
    ("triangle", "Linear"): [(0, 0), (1, 0), (0, 1)],
    ("triangle", "Quadratic"): [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)],
    ("quad", "Linear"): [(-1, -1), (1, -1), (1, 1), (-1, 1)],
    ("quad", "Quadratic"): [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)],
    ("tetra", "Linear"): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    ("tetra", "Quadratic"): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (H, 0, 0), (H, H, 0), (0, H, 0), (0, 0, H),
                             (H, 0, H), (0, H, H)],
    ("hexa", "Linear"): HEXA8,
    ("hexa", "Quadratic"): HEXA8 + [(0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (0, -1, 1), (1, 0, 1), (0, 1, 1),
                                    (-1, 0, 1), (-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)],
}


def make(rect):
    return "from_box" if rect else "from_nodes"


class Elements:
    """compiles one TU per element from a body template and runs the dataflow on its functions"""

    def __init__(self, chk, body, names=None, tag=""):
        """body: callable(name, info) -> C++ text of extern "C" functions (E is the element type, MAKE the maker)"""
        self.chk = chk
        self.bc = {}
        names = list(names or ELEMENTS)

        def job(n):
            def f():
                ty, shape, order, dim, rect = ELEMENTS[n]
                t = body(n, ELEMENTS[n])
                if t is None:
                    return None
                src = f'#include "elements.hpp"\nusing E = {ty};\n#define MAKE {make(rect)}<E>\n{t}'
                safe = tag + n.replace("<", "_").replace(">", "").replace(",", "_")
                try:
                    return build.compile_source(src, safe)
                except build.CompileError as e:
                    return e
            return f
        for n, r in zip(names, build.parallel([job(n) for n in names])):
            if r is not None:
                self.bc[n] = r

    def names(self):
        return [n for n in self.bc if not isinstance(self.bc[n], Exception)]

    def errors(self):
        return {n: e for n, e in self.bc.items() if isinstance(e, Exception)}

    def run(self, n, fn, inputs, nout=None, bounds=None, **kw):
        """inputs: list of names ('xi' -> double array xi[i]; Poly -> scalar); returns (outs, ret, interp)"""
        it = self.chk.interp(self.bc[n], **kw)
        st = A.State()
        args = []
        for x in inputs:
            if isinstance(x, str):
                lo, hi = (bounds or {}).get(x, (None, None))
                args.append(it.input_array(st, x, lo=lo, hi=hi))
            elif isinstance(x, dict):          # array with given cells
                p = it.input_array(st, x["name"])
                f64 = it.f64()
                for i, v in x["cells"].items():
                    it.store(st, A.Ptr(p.obj, P.K(8 * i)), v if isinstance(v, P.Poly) else P.K(v), f64)
                args.append(p)
            else:
                args.append(x)
        out = it.output(st, "out")
        try:
            ret, s = it.call(fn, args + [out], st)
        except (A.Unsupported, A.LoopUnknown, P.TooBig, RecursionError) as e:
            self.chk.notes.append(f"{n}: {fn}: {e}")
            self.chk.ob(n, f"{fn[2:]}: analysis reaches the result", None, str(e)[:200])
            return [check.UNKNOWN] * (nout or 0) if nout is not None else {}, check.UNKNOWN, it
        self.chk.account(it)
        o = s.mem[out.obj]
        vals = {k // 8: v[1] for k, v in o.cells.items()} if s is not None else {}
        if nout is not None:
            vals = [vals.get(i, A.UNDEF) for i in range(nout)]
        return vals, ret, it


def xi_vars(c, name="xi"):
    return [P.var(f"{name}[{i}]") for i in range(c)]


def at(p, point, name="xi"):
    """value of p at a reference point"""
    mp = {next(iter(P.support(P.var(f"{name}[{i}]")))): P.K(x) for i, x in enumerate(point)}
    return P.subst(p, mp)


def rotation(dim, name="q"):
    """entries of a general rotation matrix: unnormalised quaternion (3D) or complex number (2D)"""
    P.CANCEL[0] = True
    if dim == 2:
        a, b = P.var(name + "a"), P.var(name + "b")
        d = P.inv(a * a + b * b)
        c, s = (a * a - b * b) * d, (a * b).scale(2) * d
        return [[c, -s], [s, c]]
    a, b, c, e = (P.var(name + x) for x in "abcd")
    d = P.inv(a * a + b * b + c * c + e * e)
    return [[(a * a + b * b - c * c - e * e) * d, (b * c - a * e).scale(2) * d, (b * e + a * c).scale(2) * d],
            [(b * c + a * e).scale(2) * d, (a * a - b * b + c * c - e * e) * d, (c * e - a * b).scale(2) * d],
            [(b * e - a * c).scale(2) * d, (c * e + a * b).scale(2) * d, (a * a - b * b - c * c + e * e) * d]]


TINY = P.Fraction(1, 10**30)


def box(n, rot=True):
    """input cells (center, size > 0, rotation) of a rectangular element"""
    ty, shape, order, dim, rect = ELEMENTS[n]
    c = CDIM[shape]
    cells = {}
    for i in range(dim):
        cells[i] = P.var(f"center[{i}]")
    for i in range(c):
        cells[dim + i] = P.var(f"size[{i}]", lo=TINY)
    R = rotation(dim) if rot else [[P.K(int(i == j)) for j in range(dim)] for i in range(dim)]
    for i in range(dim):
        for j in range(dim):
            cells[dim + c + i * dim + j] = R[i][j]
    return {"name": "n", "cells": cells}


def inputs(n, rot=True):
    """the element description argument: free node positions, or a box with an arbitrary rotation"""
    return box(n, rot) if ELEMENTS[n][4] else "n"


HEADERS = {"segment": "Segment", "triangle": "Triangle", "quad": "Quad", "tetra": "Tetrahedron", "hexa": "Hexahedron"}


def src(n, chk, it):
    """construct under analysis: element type, and the source lines its computation was attributed to"""
    h = ("Rectangular" if ELEMENTS[n][4] else "") + HEADERS[ELEMENTS[n][1]]
    w = chk.where(it)
    return w or [f"src/Caribou/Geometry/{h}.h ({ELEMENTS[n][0]})"]
