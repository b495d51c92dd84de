"""C15: the cells around a position and the cells enclosing positions."""
import itertools
import random

from engine import absint as A, build, num, poly as P
from checks.c14 import Grid, arr, mixed, nat

SRC = '''
#include <Caribou/config.h>
#include <Caribou/macros.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <models.hpp>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou::topology;
typedef long long I;
template <class G> G mk(const double * a, const double * s, const I * n) {
    constexpr int D = G::Dimension;
    typename G::WorldCoordinates A; typename G::Dimensions S; typename G::Subdivisions N;
    for (int i = 0; i < D; ++i) { A[i] = a[i]; S[i] = s[i]; N[i] = n[i]; }
    return G(A, N, S);
}
template <class G> typename G::WorldCoordinates wc(const double * c) { typename G::WorldCoordinates r; for (size_t i = 0; i < G::Dimension; ++i) r[i] = c[i]; return r; }
#define ARGS const double * a, const double * s, const I * n
#define W(D) using G##D = Grid<D>; \\
extern "C" void w##D##_around(ARGS, const double * p) { const auto g = mk<G##D>(a, s, n); const auto r = g.cells_around(wc<G##D>(p)); op_size(&r); } \\
extern "C" void w##D##_enclosing(ARGS, const double * p) { const auto g = mk<G##D>(a, s, n); const auto r = g.cells_enclosing(wc<G##D>(p), wc<G##D>(p + D)); op_size(&r); } \\
extern "C" void w##D##_enclosing1(ARGS, const double * p) { const auto g = mk<G##D>(a, s, n); const auto r = g.cells_enclosing(wc<G##D>(p)); op_size(&r); } \\
extern "C" void w##D##_enclosing3(ARGS, const double * p) { const auto g = mk<G##D>(a, s, n); const auto r = g.cells_enclosing(wc<G##D>(p), wc<G##D>(p + D), wc<G##D>(p + 2*D)); op_size(&r); }
W(1) W(2) W(3)
'''
LOW, HIGH = P.Fraction(1, 10**9), 1 - P.Fraction(1, 10**9)
HALF = P.Fraction(1, 2)


def push(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "push", (args[0].obj, it.num(args[1])), it.loc(I)),)
    return None


def size(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "result", args[0].obj, it.loc(I)),)
    return P.ZERO


def copy(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "copy", (args[0].obj, args[1].obj), it.loc(I)),)


def clear(it, st, args, I, name):
    st.events = st.events + ((P.TRUE, "clear", args[0].obj, it.loc(I)),)


HOOKS = {"op_push": push, "op_size": size, "op_copy": copy, "op_clear": clear}


def results(events):
    """the appended values that belong to the returned container, None when it cannot be told"""
    res = {e[2] for e in events if e[1] == "result"}

    def only(ev):
        out = []
        for e in ev:
            if e[1] == "push":
                if e[2][0] in res:
                    out.append((e[0], "push", e[2][1], e[3]))
            elif e[1] == "loop":
                out.append((e[0], "loop", {**e[2], "body_events": only(e[2]["body_events"])}, e[3]))
            else:
                out.append(e)
        return tuple(out)
    if len(res) != 1:
        return None
    for e in reversed(events):
        if e[1] == "copy" and e[2][0] in res:
            res.add(e[2][1])
    if any(e[1] == "clear" and e[2] in res for e in events):
        return None
    return only(events)


def axis_cases(k, n):
    """(name, position along axis k in cells, cells touched on that axis)"""
    one = P.ONE
    r = nat(f"r{k}")
    f = P.var(f"fl{k}", lo=LOW, hi=HALF - LOW)
    g = one - P.var(f"fh{k}", lo=LOW, hi=HALF - LOW)
    c = n - one - r                      # any cell
    return [("lower half of a cell", c + f, [c]), ("upper half of a cell", c + g, [c]),
            ("between two cells", c, [c - one, c]), ("on the lower boundary", P.ZERO, [P.ZERO]), ("on the upper boundary", n, [n - one]),
            ("below the grid", f - r - one, []), ("below the grid (upper half)", g - r - one, []), ("below the grid on a cell boundary", -r - one, []),
            ("above the grid", n + r + f, []), ("above the grid (upper half)", n + r + g, []), ("above the grid on a cell boundary", n + r + one, [])]


def run(chk):
    A.UNROLL[0] = 0
    P.CANCEL[0] = True
    bc = build.compile_source(SRC, "c15", extra=("-fno-exceptions",))
    chk.module(bc)
    jobs = []
    for d in (1, 2, 3):
        g = Grid(chk, bc, d)
        jobs += around(chk, g)
        jobs += enclosing(chk, g)
    chk.parallel(jobs)


def around(chk, g):
    d = g.d
    subj = f"Grid<{d}>::cells_around"
    n = [P.var(f"n{k}", isint=True, lo=1, hi=10**10) for k in range(d)]

    def job(combo):
        with chk.guard(subj):
            facts = P.FACTS[:]
            try:
                cases = []
                for k in range(d):
                    cs = axis_cases(k, n[k])
                    cases.append(cs[combo[k]])
                    if combo[k] < 3:
                        P.FACTS.append(n[k] - P.ONE - nat(f"r{k}") - P.K(int(combo[k] == 2)))
                p = [g.a[k] + g.s[k] * P.inv(n[k]) * cases[k][1] for k in range(d)]
                it = chk.interp(g.bc, hooks=HOOKS)
                it.unroll = 4
                inp = [("a", dict(enumerate(g.a))), ("s", dict(enumerate(g.s))), ("n", dict(enumerate(n))), arr("p", p)]
                _, _, w, it, st = chk.eval(g.bc, f"w{d}_around", inp, it=it)
                ev = results(st.events)
                if ev is None:
                    return chk.ob(subj, "result", None, "container not followed", w)
                got = [(e[0], e[2]) for e in ev if e[1] == "push" and e[0] is not P.FALSE]
                want = [mixed(c, n) for c in itertools.product(*[c[2] for c in cases])]
                rule = "position " + ", ".join(c[0] for c in cases)
                if any(e[1] == "loop" for e in ev):
                    return chk.ob(subj, rule, None, "loop not followed", w)
                ok = all(q is P.TRUE for q, _ in got) and sorted(map(str, (v for _, v in got))) == sorted(map(str, want))
                det = ""
                if not ok:
                    ok, det = sample(got, want, P.FACTS[len(facts):])
                chk.ob(subj, rule + (": exactly the cell it lies in or the cells it touches" if want else ": no cell"), ok, det, w)
            finally:
                P.FACTS[:] = facts
    return [lambda c=c: job(c) for c in itertools.product(*[range(11)] * d)]


def pair_cases(k, n):
    """positions of two points along axis k: (name, tA, tB, first cell, last cell, A inside, B inside, facts)"""
    one = P.ONE
    r = nat(f"r{k}")
    fA, fB = P.var(f"fA{k}", lo=LOW, hi=HIGH), P.var(f"fB{k}", lo=LOW, hi=HIGH)
    res = []

    def inside(nm, c, f):
        return [(f"in {nm}", c + f, c, c, True), (f"on the lower side of {nm}", c, c - one, c, True)]
    low = [("below", fA - r - one, P.ZERO, P.ZERO, False), ("below on a cell boundary", -r - one, P.ZERO, P.ZERO, False), ("on the lower boundary", P.ZERO, P.ZERO, P.ZERO, True)]
    high = [("above", n + r + fB, n - one, n - one, False), ("above on a cell boundary", n + r + one, n - one, n - one, False), ("on the upper boundary", n, n - one, n - one, True)]
    a = n - one - r - nat(f"b{k}")          # with b >= 1: A's cell before B's
    b = P.var(f"bb{k}", isint=True, lo=1)
    a = n - one - r - b
    for x in inside("a cell", a, fA):
        for y in inside("a later cell", a + b, fB):
            res.append((x, y, [a - one]))
    c = n - one - r
    for x in inside("a cell", c, fA):
        for y in inside("the same cell", c, fB):
            res.append((x, y, [c - one]))
        for y in high:
            res.append((x, y, [c - one]))
        for y in low:
            res.append((y, x, [c - one]))
    for x in low:
        for y in high:
            res.append((x, y, []))
    out = []
    for x, y, facts in res:
        lo, hi = pmin(x[2], y[2]), pmax(x[3], y[3])
        out.append((f"{x[0]} / {y[0]}", x[1], y[1], lo, hi, x[4], y[4], facts))
    # both on the same side outside
    r2 = nat(f"q{k}")
    out.append(("both below", fA - r - one, fB - r2 - one, P.ZERO, P.ZERO, False, False, []))
    out.append(("both above", n + r + fA, n + r2 + fB, n - one, n - one, False, False, []))
    return out


def pmin(x, y):
    return P.ite(P.bcmp("le", x - y), x, y)


def pmax(x, y):
    return P.ite(P.bcmp("le", x - y), y, x)


def enclosing(chk, g):
    d = g.d
    subj = f"Grid<{d}>::cells_enclosing"
    n = [P.var(f"n{k}", isint=True, lo=1, hi=10**10) for k in range(d)]
    npairs = len(pair_cases(0, n[0]))
    combos = set()
    for ax in range(d):
        for other in (0, 7, npairs - 4) if d > 1 else (0,):
            for c in range(npairs):
                combos.add(tuple(c if k == ax else other for k in range(d)))

    def job(combo, swap):
        with chk.guard(subj):
            facts = P.FACTS[:]
            try:
                cs = [pair_cases(k, n[k])[combo[k]] for k in range(d)]
                for c in cs:
                    P.FACTS.extend(c[7])
                cs = [pair_cases(k, n[k])[combo[k]] for k in range(d)]       # min and max under the facts
                tA = [cs[k][2 if swap >> k & 1 else 1] for k in range(d)]
                tB = [cs[k][1 if swap >> k & 1 else 2] for k in range(d)]
                inA = all(cs[k][6 if swap >> k & 1 else 5] for k in range(d))
                inB = all(cs[k][5 if swap >> k & 1 else 6] for k in range(d))
                p = [g.a[k] + g.s[k] * P.inv(n[k]) * t[k] for t in (tA, tB) for k in range(d)]
                rule = "positions " + ", ".join(c[0] + (" (swapped)" if swap >> k & 1 else "") for k, c in enumerate(cs))
                it = chk.interp(g.bc, hooks=HOOKS)
                inp = [("a", dict(enumerate(g.a))), ("s", dict(enumerate(g.s))), ("n", dict(enumerate(n))), arr("p", p)]
                _, _, w, it, st = chk.eval(g.bc, f"w{d}_enclosing", inp, it=it)
                box = [(c[3], c[4]) for c in cs] if inA or inB else None
                ok, det = boxed(st.events, box, n, P.FACTS[len(facts):])
                chk.ob(subj, rule + (": exactly the cells of the clipped bounding box" if box else ": all outside, no cell"), ok, det, w)
            finally:
                P.FACTS[:] = facts
    return [lambda c=c, w=w: job(c, w) for c in sorted(combos) for w in (range(1 << d) if d < 3 else (0, 7, 2))]


def boxed(events, box, n, assume):
    """do the reported cells run over exactly the given box?"""
    events = results(events)
    if events is None:
        return None, "container not followed"
    ev = [e for e in events if e[1] in ("push", "loop") and e[0] is not P.FALSE]
    if box is None and not ev:
        return True, ""
    if box is not None and matches(ev, dict(enumerate(box)), {}, n):
        return True, ""
    for s in range(60):
        pt = num.Point(s, exact=True)
        try:
            if not all(pt.ev(f) >= 0 for f in assume):
                continue
            got = sorted(unroll(ev, dict(pt.env), s))
            want = []
            if box is not None:
                ext = [pt.ev(x) for x in n]
                for c in itertools.product(*[range(int(pt.ev(lo)), int(pt.ev(hi)) + 1) for lo, hi in box]):
                    v, m = 0, 1
                    for x, e in zip(c, ext):
                        v, m = v + x * m, m * e
                    want.append(v)
        except (num.Undefined, KeyError):
            continue
        if got != sorted(want):
            return False, f"reports cells {[str(v) for v in got[:12]]}, must report {[str(v) for v in sorted(want)[:12]]} at " + str({k: str(v) for k, v in pt.used.items()})[:300]
    return None, "not shown: " + str(ev)[:300]


def conj(b):
    return set() if b is P.TRUE else set(b.args) if b.kind == "and" else {b}


def left(ev):
    """conditions that hold because the loops among the events have been left"""
    r = set()
    for e in ev:
        if e[1] == "loop":
            r |= left(e[2]["body_events"])
            for x in e[2]["exits"]:
                r |= conj(x[0])
    return r


def matches(ev, todo, axis, n):
    """events that append exactly the cells of the box `todo` x the coordinates already fixed in `axis`"""
    ev = [x for x in ev if x[1] in ("push", "loop") and x[0] is not P.FALSE]
    for k, (lo, hi) in todo.items():       # a single cell along this axis
        if lo == hi and matches(ev, {j: b for j, b in todo.items() if j != k}, {**axis, k: lo}, n):
            return True
        w = (hi - lo).const()              # or a known number of cells, one after the other
        if w and len(ev) % (w + 1) == 0 and len(ev) > w:
            m = len(ev) // (w + 1)
            rest = {j: b for j, b in todo.items() if j != k}
            if all(matches(ev[i * m:i * m + m], rest, {**axis, k: lo + P.K(i)}, n) for i in range(int(w) + 1)):
                return True
    if not ev or conj(ev[0][0]):
        return False
    if not todo:
        return len(ev) == 1 and ev[0][1] == "push" and ev[0][2] == mixed([axis[k] for k in sorted(axis)], n)
    if ev[0][1] != "loop":
        return False
    s = ev[0][2]
    if len(s["phi"]) != 1:
        return False
    cont = P.TRUE
    for c in conj(s["cont"]) - left(s["body_events"]):
        cont = P.band(cont, c)
    (pid, v), = s["phi"].items()
    if s["next"][pid] != v + P.ONE:
        return False
    for k, (lo, hi) in todo.items():
        if s["start"][pid] != lo:
            continue
        rest, ax = {j: b for j, b in todo.items() if j != k}, {**axis, k: v}
        if cont in (P.bcmp("lt", v - hi), P.bcmp("le", v - hi + P.ONE)) or cont is P.bnot(P.bcmp("eq", v - hi)) and P.is_nonneg(hi - lo):          # last pass leaves the loop
            if matches(s["body_events"], rest, ax, n) and matches(ev[1:], rest, ax, n):
                return True
        if cont in (P.bcmp("le", v - hi), P.bcmp("lt", v - hi - P.ONE)):          # the test comes first
            if matches(s["body_events"], rest, ax, n) and not ev[1:]:
                return True
    return False


def unroll(events, env, seed, cap=4000):
    """values appended by an event tree when its loops are unrolled at one point of the inputs"""
    out = []
    for e in events:
        pt = num.Point(seed, env=env, exact=True)
        if not pt.b(e[0]):
            continue
        if e[1] == "push":
            out.append(pt.ev(e[2]))
            continue
        s = e[2]
        cur = {pid: pt.ev(v) for pid, v in s["start"].items()}
        mem = {k: pt.ev(v) for k, v in s["mem_start"].items() if isinstance(v, P.Poly)}
        if any(not isinstance(v, P.Poly) for v in s["phi"].values()):
            raise num.Undefined
        for _ in range(cap):
            en = dict(env)
            for pid, v in s["phi"].items():
                en[next(iter(P.support(v))).args[0]] = cur[pid]
            for k, v in s["mem"].items():
                if k not in mem:
                    continue
                en[next(iter(P.support(v))).args[0]] = mem[k]
            body = unroll(s["body_events"], en, seed, cap)       # the loops of the body settle the conditions of the next pass
            q = num.Point(seed, env=en, exact=True)
            if q.b(s["cont"]):
                out += body
                cur, mem = {pid: q.ev(v) for pid, v in s["next"].items()}, {k: q.ev(v) for k, v in s["mem_next"].items() if k in mem or isinstance(v, P.Poly)}
            else:
                env.update(en)       # the events of the last pass follow the loop
                break
        else:
            raise num.Undefined
    return out


def sample(got, want, assume, tries=80):
    """evaluates the two guarded collections at points satisfying the facts: a difference refutes, equality leaves it open"""
    for s in range(tries):
        pt = num.Point(s, exact=True)
        try:
            if not all(pt.ev(f) >= 0 for f in assume):
                continue
            x = sorted(pt.ev(v) for q, v in got if pt.b(q))
            y = sorted(pt.ev(v) for v in want)
        except num.Undefined:
            continue
        if x != y:
            return False, f"reports cells {[str(v) for v in x]}, must report {[str(v) for v in y]} at " + str({k: str(v) for k, v in pt.used.items()})[:300]
    return None, "not shown: " + "; ".join(f"{P.fmt(v, 4)} if {P.bfmt(q)[:80]}" for q, v in got)[:300]


RULE = ("dataflow over the LLVM IR of cells_around and cells_enclosing with the standard containers replaced by transparent models: the cells appended, with their "
        "guards and loop ranges, must be those whose closed box contains the position, respectively the clipped bounding box, for every class of positions")
ASSUMPTIONS = ["exact real arithmetic", "at most 1e9 subdivisions per axis", "std::vector and std::list append in order (models)", "positions exactly half way along a cell are represented by their neighbours"]
