"""C10: rectangular elements are boxes with the centre, size and rotation they report."""
from engine import elements as EL, poly as P
from checks import c09

BODY = '''
template <class T> void box(double *& o, const T & e) { put(o, e.center()); put(o, e.size()); put(o, e.rotation()); }
typename E::Size size_at(const double * n) { typename E::Size h; for (int i = 0; i < CD<E>; ++i) h[i] = n[i]; return h; }
typename E::Rotation rot_at(const double * n) { typename E::Rotation r; for (int i = 0; i < DD<E>; ++i) for (int j = 0; j < DD<E>; ++j) r(i,j) = n[i*DD<E>+j]; return r; }
extern "C" void w_c0(const double *, double * out) { const E e; box(out, e); }
extern "C" void w_c1(const double * n, double * out) { const E e(world<E>(n)); box(out, e); }
extern "C" void w_cH(const double * n, double * out) { const E e(world<E>(n), size_at(n + DD<E>)); box(out, e); }
extern "C" void w_cR(const double * n, double * out) { const E e(world<E>(n), rot_at(n + DD<E>)); box(out, e); }
extern "C" void w_cHR(const double * n, double * out) { const E e(world<E>(n), size_at(n + DD<E>), rot_at(n + DD<E> + CD<E>)); box(out, e); }
extern "C" void w_copy(const double * n, double * out) { const E a(world<E>(n), size_at(n + DD<E>), rot_at(n + DD<E> + CD<E>)); E b; b = a; const E e(b); box(out, e); }
extern "C" void w_from(const double * n, double * out) { const SRC s(matrix<SRC>(n)); const E e(s); box(out, e); }
extern "C" void w_fromC(const double * n, double * out) { const NodesOf<E> m = matrix<SRC>(n); const E e(m); box(out, e); }
extern "C" void w_fromM(const double * n, double * out) { NodesOf<E> m = matrix<SRC>(n); const E e(m); box(out, e); }
extern "C" void w_world(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.world_coordinates(local<E>(xi))); }
'''
HEX = '''
extern "C" void w_local(const double * n, const double * x, double * out) { const E e = MAKE(n); put(out, e.local_coordinates(world<E>(x))); }
extern "C" bool w_contains(const double * n, const double * x, double *) { const E e = MAKE(n); return e.contains(world<E>(x)); }
extern "C" bool w_containsl0(const double * n, const double * x, double *) { const E e; return e.contains_local(world<E>(x)); }
extern "C" bool w_containsl(const double * n, const double * x, double *) { const E e = MAKE(n); return e.contains_local(e.local_coordinates(world<E>(x))); }
'''
QUAD = '''
extern "C" void w_T(const double * n, const double * xi, double * out) { const E e = MAKE(n); put(out, e.T(local<E>(xi))); }
'''
QUADL = '''
using LQ = Quad<DD<E>, Linear>;
extern "C" void w_fromL(const double * n, double * out) { const LQ s(matrix<LQ>(n)); const E e(s); box(out, e); }
'''


def body(n, info):
    ty, shape, order, dim, rect = info
    if not rect:
        return None
    t = "using SRC = " + ty.replace("Rectangular", "") + ";\n" + BODY
    t += HEX if shape == "hexa" else QUAD
    if shape == "quad" and order == "Quadratic":
        t += QUADL
    return t


def run(chk):
    P.CANCEL[0] = True
    el = EL.Elements(chk, body, tag="c10_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        c = EL.CDIM[shape]
        P.GENERIC[0] = None
        v = lambda i: P.var(f"n[{i}]")
        ctr = [v(i) for i in range(dim)]
        two = [P.K(2)] * c
        eye = [P.K(int(i == j)) for i in range(dim) for j in range(dim)]
        H = [v(dim + i) for i in range(c)]
        names = [f"center[{i}]" for i in range(dim)] + [f"size[{i}]" for i in range(c)] + [f"rotation({i},{j})" for i in range(dim) for j in range(dim)]
        for fn, want, what in (
                ("w_c0", [P.ZERO] * dim + two + eye, "default"),
                ("w_c1", ctr + two + eye, "from a centre"),
                ("w_cH", ctr + H + eye, "from a centre and a size"),
                ("w_cR", ctr + two + [v(dim + i) for i in range(dim * dim)], "from a centre and a rotation"),
                ("w_cHR", ctr + H + [v(dim + c + i) for i in range(dim * dim)], "from a centre, a size and a rotation"),
                ("w_copy", ctr + H + [v(dim + c + i) for i in range(dim * dim)], "copied")):
            o, _, it = el.run(n, fn, ["n"], len(names))
            for g, w, nm in zip(o, want, names):
                chk.equal(n, f"{what}: {nm}", g, w, EL.src(n, chk, it))
        # from the nodes of a (parallel-epipedic) element with free edge vectors
        P.GENERIC[0] = c09.generic
        edges = [[P.var(f"{'abg'[j]}{k}") for k in range(dim)] for j in range(c)]
        ref = EL.REF[shape, order]
        cells = {}
        for i, r in enumerate(ref):
            for k in range(dim):
                x = P.var(f"c{k}")
                for j in range(c):
                    x = x + edges[j][k].scale(P.Fraction(r[j]) / 2)
                cells[i * dim + k] = x
        for fn, what in [("w_from", "an element"), ("w_fromC", "a constant matrix of nodes"), ("w_fromM", "a matrix of nodes")] + \
                ([("w_fromL", "a linear element")] if shape == "quad" and order == "Quadratic" else []):
            with chk.guard(n):
                o, _, it = el.run(n, fn, [{"name": "n", "cells": cells}], len(names))
                w = EL.src(n, chk, it)
                for k in range(dim):
                    chk.equal(n, f"from {what}: center[{k}]", o[k], P.var(f"c{k}"), w)
                for j in range(c):
                    chk.equal(n, f"from {what}: size[{j}] is the length of the edge along local axis {j}", o[dim + j],
                              P.sqrt(c09.dot(edges[j], edges[j])), w)
                c09.frame_obs(chk, f"{n}, from {what}, rotation", o[dim + c:], edges[0], edges[1], dim, w, c == 3)
        P.GENERIC[0] = None
        # world mapping of a rotated box
        with chk.guard(n):
            b = EL.box(n)
            wd, _, it = el.run(n, "w_world", [b, "xi"], dim)
            want = []
            for k in range(dim):
                s = b["cells"][k]
                for j in range(c):
                    s = s + b["cells"][dim + c + k * dim + j] * b["cells"][dim + j] * P.var(f"xi[{j}]").scale(P.Fraction(1, 2))
                want.append(s)
            for k in range(dim):
                chk.equal(n, f"world_coordinates(xi)[{k}] = center + R (xi * size / 2)", wd[k], want[k], EL.src(n, chk, it))
            if shape == "quad":
                t, _, it = el.run(n, "w_T", [b, "xi"], dim)
                for k in range(dim):
                    chk.equal(n, f"T(xi)[{k}] = center + R (xi * size / 2)", t[k], want[k], EL.src(n, chk, it))
            else:
                lo, _, it = el.run(n, "w_local", [b, {"name": "x", "cells": dict(enumerate(want))}], c)
                for j in range(c):
                    chk.equal(n, f"local_coordinates(world(xi))[{j}] = xi[{j}], any rotation", P.cancel(lo[j]), P.var(f"xi[{j}]"), EL.src(n, chk, it))
                # x = center + R (y size / 2) with y free: inside exactly when every |y| <= 1 (+ tolerance)
                b0 = EL.box(n, rot=False)
                xs = {j: b0["cells"][j] + P.var(f"y[{j}]") * b0["cells"][3 + j].scale(P.Fraction(1, 2)) for j in range(3)}
                _, r1, it = el.run(n, "w_contains", [b0, {"name": "x", "cells": xs}])
                _, r2, it = el.run(n, "w_containsl0", ["n", "y"])
                chk.boolean(n, "contains(center + y size/2) is contains_local(y)", r1, r2, EL.src(n, chk, it), env=around)
                _, ra, it = el.run(n, "w_contains", ["n", "x"])
                _, rb, it = el.run(n, "w_containsl", ["n", "x"])
                chk.boolean(n, "contains(x) is contains_local(local_coordinates(x))", ra, rb, EL.src(n, chk, it))


def around(i):
    import random
    r = random.Random(i)
    return {f"y[{k}]": r.choice([0, .5, -.5, .99, -.99, 1.01, -1.01] if r.random() < .9 else [1.01, -1.01]) for k in range(3)}


RULE = ("dataflow from constructor arguments to centre, size and rotation; from node positions to the box recovered from them; from the box "
        "to the world mapping and its inverse, with a general rotation (quaternion parametrisation); equalities of rational functions")
ASSUMPTIONS = ["exact real arithmetic", "edge vectors are not degenerate"]
