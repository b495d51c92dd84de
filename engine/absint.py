"""Forward dataflow (abstract interpretation) of decoded LLVM IR.

 * scalar values: elements of the polynomial normal-form domain of poly.py
 * memory: per-object cell maps (object, constant offset) -> value; symbolic offsets
   become opaque select atoms / logged array stores
 * control flow: states are joined at immediate post-dominators with gated values
   (ite(c, a, b)); loops whose exit test is a known constant are unrolled by the
   analysis, other loops are summarised with fresh header atoms (widening).
No path enumeration, no solver, no execution of the program."""
import math
from fractions import Fraction
from . import llvmir as ir
from . import poly as P
from .poly import Poly, BExpr, K, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    pass


class LoopUnknown(Exception):
    def __init__(self, header, cond=None):
        self.header = header
        self.cond = cond


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PtrIte) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return f"({self.c}?{self.a}:{self.b})"


NULL = Ptr("null", ZERO)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NARROW = {"int": True, "float": True}     # conversions to narrower types: exact only where the value provably fits
UNROLL = [9]                 # passes through a loop with a symbolic exit to try before it is summarised


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "@" + self.name


class Obj:
    """kind: 'local','heap','global','input'.  default: callable(off,size,ty)->value or None(undef)"""
    __slots__ = ("kind", "size", "cells", "default", "log", "const", "name")

    def clone(self):
        o = Obj()
        o.kind, o.size, o.default, o.const, o.name = self.kind, self.size, self.default, self.const, self.name
        o.cells = dict(self.cells)
        o.log = list(self.log)
        return o


class State:
    __slots__ = ("mem", "own", "events")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.events = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.events = self.events
        return s

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.clone()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Outcome:
    __slots__ = ("guard", "stop", "prev", "phis", "env", "st", "ret")

    def __init__(self, guard, stop, phis, env, st, ret=None):
        self.guard, self.stop, self.phis, self.env, self.st, self.ret = guard, stop, phis, env, st, ret


class Interp:
    def __init__(self, mod, opaque=(), repo="/repo/", max_steps=3_000_000, loop_cap=4096, hooks=None, noinline=()):
        self.mod = mod
        self.repo = repo
        self.steps = 0
        self.max_steps = max_steps
        self.loop_cap = loop_cap
        self.nobj = 0
        self.visited = {}
        self.functions = set()
        self.hooks = hooks or {}
        self.prefix_hooks = []
        self.memory_errors = []
        self.fresh = 0
        self.loops = []
        self.unknown_calls = {}
        self.havoc_calls = []
        self.depth = 0
        self.cur = None
        self.global_writes = []      # (global name, loc) stores to mutable globals
        self.null_derefs = []
        self.assumed_dead = []
        self.summary_loops = True
        self.unroll = UNROLL[0]      # loops with a symbolic exit: gated passes to try before summarising

    # ------------------------------------------------------------ objects
    def new_obj(self, st, kind, size, default=None, name=None, const=False):
        self.nobj += 1
        oid = f"{name or kind}#{self.nobj}" if kind != "global" else name
        o = Obj()
        o.kind, o.size, o.cells, o.default, o.log, o.const, o.name = kind, size, {}, default, [], const, name
        st.mem[oid] = o
        st.own.add(oid)
        return oid

    def input_array(self, st, name, elem="f", size=None, lo=None, hi=None):
        """object whose 8-byte cells are fresh input variables name[i]"""
        def default(off, sz, ty):
            if off % sz:
                raise Unsupported(f"misaligned input read {name}+{off}")
            nm = f"{name}[{off // sz}]"
            if ty is not None and ty.kind == ir.TK_PTR:
                return None
            return P.var(nm, isint=(ty is not None and ty.kind == ir.TK_INT), lo=lo, hi=hi)
        oid = self.new_obj(st, "input", size, default, name=name)
        return Ptr(oid, ZERO)

    def output(self, st, name):
        return Ptr(self.new_obj(st, "input", None, None, name=name), ZERO)

    def fresh_atom(self, tag, isint=False, lo=None, hi=None):
        self.fresh += 1
        return P.var(f"{tag}!{self.fresh}", isint=isint, lo=lo, hi=hi)

    # ------------------------------------------------------------ constants
    def cval(self, c, st):
        k = c[0]
        if k == "i":
            if c[1] == 1:
                return P.bconst(c[2] & 1)
            return K(c[2])
        if k == "f":
            if math.isinf(c[1]) or math.isnan(c[1]):
                a = P.var("inf" if c[1] > 0 else "-inf" if c[1] < 0 else "nan")
                return a
            return K(P.rat_of_float(c[1]))
        if k == "null":
            return NULL
        if k == "fn":
            return FnPtr(c[1])
        if k == "g":
            return Ptr(self.glob(c[1], st), ZERO)
        if k == "undef":
            return UNDEF
        if k == "cgep":
            base = self.cval(c[2][0], st)
            return self.gep(base, c[1], [self.cval(x, st) for x in c[2][1:]])
        if k == "zero":
            return self.zero_of(c[1])
        if k == "agg":
            return [self.cval(x, st) for x in c[1]]
        if k == "cexpr":
            if c[1] in ("bitcast", "addrspacecast", "inttoptr"):
                return self.cval(c[2][0], st)
            if c[1] == "ptrtoint":
                v = self.cval(c[2][0], st)
                return self.ptrtoint(v)
            if c[1] in ("add", "sub"):
                a, b = (self.cval(x, st) for x in c[2])
                return a + b if c[1] == "add" else a - b
        if k == "meta":
            return None
        raise Unsupported(f"constant {c!r}"[:200])

    def zero_of(self, t):
        if t.kind == ir.TK_INT:
            return FALSE if t.width == 1 else ZERO
        if t.kind in (ir.TK_DOUBLE, ir.TK_FLOAT, ir.TK_X86FP80):
            return ZERO
        if t.kind == ir.TK_PTR:
            return NULL
        if t.kind in (ir.TK_ARRAY, ir.TK_VEC):
            return [self.zero_of(t.elem) for _ in range(t.n)]
        if t.kind == ir.TK_STRUCT:
            return [self.zero_of(f) for f in t.fields]
        raise Unsupported("zero type")

    def glob(self, name, st):
        if name not in st.mem:
            if name not in self.mod.globals:
                raise Unsupported("global " + name)
            t, init = self.mod.initializer(name)
            const = self.mod.is_const_global(name)
            oid = self.new_obj(st, "global", t.alloc, None, name=name, const=const)
            if init is not None:
                self.store_const(st, oid, 0, t, init)
            else:
                def default(off, sz, ty, name=name):
                    if ty is not None and ty.kind == ir.TK_PTR:
                        return Ptr("ext:" + name + f"+{off}", ZERO)
                    return P.var(f"@{name}+{off}", isint=ty is not None and ty.kind == ir.TK_INT)
                st.mem[oid].default = default
        return name

    def store_const(self, st, oid, off, t, c):
        o = st.mem[oid]
        if c[0] == "zero" or (c[0] == "null"):
            if t.kind in (ir.TK_ARRAY, ir.TK_STRUCT, ir.TK_VEC):
                self.fill_zero(o, off, t)
            else:
                o.cells[off] = (t.size, self.zero_of(t))
            return
        if c[0] == "agg":
            if t.kind in (ir.TK_ARRAY, ir.TK_VEC):
                for i, x in enumerate(c[1]):
                    self.store_const(st, oid, off + i * t.elem.alloc, t.elem, x)
            else:
                for i, x in enumerate(c[1]):
                    self.store_const(st, oid, off + t.offs[i], t.fields[i], x)
            return
        o.cells[off] = (t.size, self.cval(c, st))

    def fill_zero(self, o, off, t):
        if t.kind in (ir.TK_ARRAY, ir.TK_VEC):
            if t.n * t.elem.alloc > 1 << 16:
                raise Unsupported("huge zero array")
            for i in range(t.n):
                self.fill_zero(o, off + i * t.elem.alloc, t.elem)
        elif t.kind == ir.TK_STRUCT:
            for i, f in enumerate(t.fields):
                self.fill_zero(o, off + t.offs[i], f)
        else:
            o.cells[off] = (t.size, self.zero_of(t))

    # ------------------------------------------------------------ memory
    def gep(self, base, t, idx):
        if isinstance(base, PtrIte):
            return self.pite(base.c, self.gep(base.a, t, idx), self.gep(base.b, t, idx))
        if base is UNDEF:
            raise Unsupported("gep undef")
        if not isinstance(base, Ptr):
            raise Unsupported(f"gep of {base!r}")
        off = base.off
        cur = t
        for n, i in enumerate(idx):
            if n == 0:
                off = off + self.num(i).scale(cur.alloc)
            elif cur.kind == ir.TK_STRUCT:
                c = i.const()
                off = off + K(cur.offs[c])
                cur = cur.fields[c]
            else:
                cur = cur.elem
                off = off + self.num(i).scale(cur.alloc)
        return Ptr(base.obj, off)

    def pite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, P.ite(c, a.off, b.off))
        return PtrIte(c, a, b)

    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, BExpr):
            if v is TRUE:
                return ONE
            if v is FALSE:
                return ZERO
            return P.ite(v, ONE, ZERO)
        if isinstance(v, (Ptr, PtrIte)):
            return self.ptrtoint(v)
        if v is UNDEF:
            self.fresh += 1
            return P.var(f"undef!{self.fresh}")
        raise Unsupported(f"num of {v!r}"[:200])

    def ptrtoint(self, v):
        if isinstance(v, Ptr):
            if v.obj == "null":
                return v.off
            a = P.atom("addr", v.obj, isint=True, lo=1 << 20)
            return P.apoly(a) + v.off
        if isinstance(v, PtrIte):
            return P.ite(v.c, self.ptrtoint(v.a), self.ptrtoint(v.b))
        if isinstance(v, FnPtr):
            return P.apoly(P.atom("faddr", v.name, isint=True, lo=1 << 20))
        if isinstance(v, Poly):
            return v
        raise Unsupported(f"ptrtoint {v!r}")

    def inttoptr(self, v, st):
        if isinstance(v, (Ptr, PtrIte)):
            return v
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return Ptr("null", v)
            for m, co in v.t.items():
                if co == 1 and len(m) == 1 and m[0][1] == 1:
                    at = P.Atom.byid[m[0][0]]
                    if at.kind == "addr":
                        return Ptr(at.args[0], v - Poly({m: 1}))
                    if at.kind == "faddr" and len(v.t) == 1:
                        return FnPtr(at.args[0])
                    if at.kind == "ite" and len(v.t) == 1:
                        return self.pite(at.args[0], self.inttoptr(at.args[1], st), self.inttoptr(at.args[2], st))
        raise Unsupported(f"inttoptr {v!r}")

    def load(self, st, p, t, I=None):
        if t.kind in (ir.TK_ARRAY, ir.TK_VEC):
            return [self.load(st, self.padd(p, i * t.elem.alloc), t.elem, I) for i in range(t.n)]
        if t.kind == ir.TK_STRUCT:
            return [self.load(st, self.padd(p, t.offs[i]), f, I) for i, f in enumerate(t.fields)]
        if isinstance(p, PtrIte):
            a = None if self.is_bad(p.a) else self.load(st, p.a, t, I)
            b = None if self.is_bad(p.b) else self.load(st, p.b, t, I)
            if a is None and b is None:
                raise Unsupported("load of null")
            if a is None:
                return b
            if b is None:
                return a
            return self.vite(p.c, a, b)
        if not isinstance(p, Ptr):
            raise Unsupported(f"load from {p!r} {self.loc(I)}")
        if p.obj not in st.mem:
            if p.obj.startswith("ext:"):
                h = self.hooks.get("extload")
                if h:
                    return h(self, st, p, t)
                if t.kind == ir.TK_PTR:
                    return Ptr(f"{p.obj}.*{p.off}", ZERO)
                return P.var(f"{p.obj}[{p.off}]", isint=t.kind == ir.TK_INT)
            raise Unsupported(f"load from dangling {p!r} {self.loc(I)}")
        o = st.mem[p.obj]
        if o.name == "freed":
            self.memory_errors.append(("read of freed memory", self.loc(I) if I is not None else ""))
        off = p.off.const()
        if off is None:
            return self.load_sym(st, p, o, t)
        return self.load_cell(st, p.obj, o, off, t, I)

    def is_bad(self, p):
        return isinstance(p, Ptr) and p.obj == "null" or p is UNDEF

    def load_cell(self, st, oid, o, off, t, I=None):
        c = o.cells.get(off)
        size = t.size
        if o.log:
            # symbolic stores shadow constant cells: alias check
            for (soff, sval, sty, _) in reversed(o.log):
                d = soff - K(off)
                if d.const() == 0 and sty.size == size:
                    return self.conv(sval, t)
                if d.const() is None and not self.noalias(d, size):
                    return P.var(f"sel({oid}v{len(o.log)},{off})", isint=t.kind == ir.TK_INT)
        if c is not None and c[0] == size:
            return self.conv(c[1], t)
        if c is not None and c[0] > size and isinstance(c[1], Poly) and c[1].const() == 0:
            return self.zero_of(t)
        if c is not None and c[0] > size and t.kind == ir.TK_INT:
            v = c[1]
            if isinstance(v, Poly) and v.const() is not None:
                return K(self.wrap(v.const() & ((1 << (8 * size)) - 1), 8 * size))
        if c is None:
            # covered by a wider cell?
            for o2, (s2, v2) in o.cells.items():
                if o2 < off < o2 + s2:
                    if isinstance(v2, Poly) and v2.const() is not None and v2.const() == 0:
                        return self.zero_of(t)
                    if isinstance(v2, Poly) and v2.isint() and v2.const() is not None:
                        x = self.wrap((v2.const() >> (8 * (off - o2))) & ((1 << (8 * size)) - 1), 8 * size)
                        return self.conv(K(x), t)
                    raise Unsupported(f"partial load {oid}+{off} {self.loc(I)}")
            if o.default is not None:
                v = o.default(off, size, t)
                if v is None:
                    raise Unsupported(f"unmodelled read {oid}+{off}")
                o.cells[off] = (size, v)
                return v
            # several narrower cells?
            sub = [(k, v) for k, v in o.cells.items() if off <= k < off + size]
            if sub:
                return self.join_cells(sorted(sub), off, size, t)
            return UNDEF
        # c narrower than requested
        sub = sorted((k, v) for k, v in o.cells.items() if off <= k < off + size)
        if c[0] < size:
            return self.join_cells(sub, off, size, t)
        if t.kind == ir.TK_INT and t.width == 1:
            return self.conv(c[1], t)
        raise Unsupported(f"size mismatch load {oid}+{off}: cell {c[0]} want {size} {self.loc(I)}")

    def join_cells(self, sub, off, size, t):
        if all(isinstance(v[1], Poly) and v[1].const() == 0 or v[1] is FALSE for _, v in sub):
            return self.zero_of(t)
        acc = 0
        for k, (s, v) in sub:
            c = v.const() if isinstance(v, Poly) else (1 if v is TRUE else 0 if v is FALSE else None)
            if c is None or not isinstance(c, int):
                if len(sub) == 1 and isinstance(v, Poly) and k == off:
                    return v
                raise Unsupported("mixed-width load of non-constants")
            acc |= (c & ((1 << (8 * s)) - 1)) << (8 * (k - off))
        return K(self.wrap(acc, 8 * size))

    def wrap(self, x, w):
        x &= (1 << w) - 1
        if x >= 1 << (w - 1):
            x -= 1 << w
        return x

    def conv(self, v, t):
        """value read back at type t"""
        if t.kind == ir.TK_PTR and isinstance(v, Poly):
            c = v.const()
            if c == 0:
                return NULL
            return self.inttoptr(v, None)
        if t.kind == ir.TK_INT:
            if t.width == 1 and isinstance(v, Poly):
                c = v.const()
                if c is not None:
                    return P.bconst(c & 1)
                return P.bnot(P.bcmp("eq", v))
            if isinstance(v, (Ptr, PtrIte, FnPtr)):
                return self.ptrtoint(v)
            if isinstance(v, BExpr) and t.width > 1:
                return self.num(v)
        return v

    def noalias(self, d, size):
        lo, hi = P.interval(d)
        return (lo is not None and lo >= size) or (hi is not None and hi <= -size)

    def load_sym(self, st, p, o, t):
        if t.kind == ir.TK_PTR:
            h = self.hooks.get("symptr")
            if h:
                r = h(self, st, p, o, t)
                if r is not None:
                    return r
            # ite offset: distribute
        # distribute over ite offsets
        for a in p.off.atoms():
            at = P.Atom.byid[a]
            if at.kind == "ite":
                oa = P.assume(p.off, {l: True for l in [at.args[0]]}) if at.args[0].kind not in ("and", "or", "not") else None
                A = P.subst(p.off, {at: at.args[1]})
                B = P.subst(p.off, {at: at.args[2]})
                return self.vite(at.args[0], self.load(st, Ptr(p.obj, A), t), self.load(st, Ptr(p.obj, B), t))
        h = self.hooks.get("symload")
        if h:
            r = h(self, st, p, o, t)
            if r is not None:
                return r
        for (soff, sval, sty, _) in reversed(o.log):
            d = soff - p.off
            if P.is_zero(d) and sty.size == t.size:
                return sval
            if not self.noalias(d, t.size):
                a = P.atom("sel", f"{p.obj}v{len(o.log)}", p.off, isint=t.kind == ir.TK_INT)
                return P.apoly(a)
        a = P.atom("sel", p.obj, p.off, isint=t.kind == ir.TK_INT)
        if t.kind == ir.TK_PTR:
            raise Unsupported(f"symbolic pointer load {p}")
        if o.kind == "global" and o.const or o.kind == "input":
            return P.apoly(a)
        a = P.atom("sel", f"{p.obj}@{id(o)}", p.off, isint=t.kind == ir.TK_INT)
        return P.apoly(a)

    def padd(self, p, k):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        return Ptr(p.obj, p.off + K(k))

    def store(self, st, p, v, t, I=None):
        if t.kind in (ir.TK_ARRAY, ir.TK_VEC):
            if v is UNDEF:
                return
            for i in range(t.n):
                self.store(st, self.padd(p, i * t.elem.alloc), v[i], t.elem, I)
            return
        if t.kind == ir.TK_STRUCT:
            for i, f in enumerate(t.fields):
                self.store(st, self.padd(p, t.offs[i]), v[i], f, I)
            return
        if isinstance(p, PtrIte):
            old_a = self.load(st, p.a, t, I)
            self.store(st, p.a, self.vite(p.c, v, old_a), t, I)
            old_b = self.load(st, p.b, t, I)
            self.store(st, p.b, self.vite(p.c, old_b, v), t, I)
            return
        if not isinstance(p, Ptr):
            raise Unsupported(f"store to {p!r}")
        if p.obj not in st.mem:
            if p.obj.startswith("ext:"):
                st.events = st.events + ((TRUE, "extstore", (p, v), self.loc(I)),)
                return
            raise Unsupported(f"store to dangling/null {p!r} {self.loc(I)}")
        o = st.w(p.obj)
        if o.kind == "global" and not o.const:
            self.global_writes.append((p.obj, self.loc(I)))
        off = p.off.const()
        if off is None:
            for a in p.off.atoms():
                at = P.Atom.byid[a]
                if at.kind == "ite":
                    A = Ptr(p.obj, P.subst(p.off, {at: at.args[1]}))
                    B = Ptr(p.obj, P.subst(p.off, {at: at.args[2]}))
                    return self.store(st, PtrIte(at.args[0], A, B), v, t, I)
            o.log.append((p.off, v, t, self.loc(I)))
            st.events = st.events + ((TRUE, "store", (p, v), self.loc(I)),)
            return
        if o.log:
            o.log.append((p.off, v, t, self.loc(I)))
        size = t.size
        if o.cells.get(off, (size,))[0] != size or self._overlaps(o, off, size):
            self.punch(o, off, size)
        o.cells[off] = (size, v)

    def _overlaps(self, o, off, size):
        # overlap with cells at other offsets (small sizes only)
        for d in range(1, 8):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                return True
        for d in range(1, size):
            if (off + d) in o.cells:
                return True
        return False

    def punch(self, o, off, size):
        for k in [k for k, (s, _) in o.cells.items() if k < off + size and off < k + s]:
            s, v = o.cells[k]
            if k >= off and k + s <= off + size:
                del o.cells[k]
            else:
                c = v.const() if isinstance(v, Poly) else None
                del o.cells[k]
                if c is not None and isinstance(c, int):
                    for i in range(s):
                        if not (off <= k + i < off + size):
                            o.cells[k + i] = (1, K((c >> (8 * i)) & 255))
                elif c is not None and c == 0:
                    pass
                # else: remaining bytes become undef

    def memcpy(self, st, d, s, n, I=None):
        if n == 0:
            return
        if isinstance(s, PtrIte) or isinstance(d, PtrIte):
            # copy 8 byte words
            for i in range(0, n, 8):
                t = self.i64 if not hasattr(self, "_f64") else self._f64
                self.store(st, self.padd(d, i), self.load(st, self.padd(s, i), t, I), t, I)
            return
        so = st.mem.get(s.obj)
        if so is None:
            raise Unsupported(f"memcpy from {s}")
        soff, doff = s.off.const(), d.off.const()
        if soff is None or doff is None or so.log:
            if n % 8 == 0 and n <= 4096:
                t = self.f64()
                vals = [self.load(st, self.padd(s, i), t, I) for i in range(0, n, 8)]
                for i, v in enumerate(vals):
                    self.store(st, self.padd(d, 8 * i), v, t, I)
                return
            raise Unsupported(f"memcpy symbolic {s} {d} {n}")
        cells = [(k - soff, v) for k, v in so.cells.items() if soff <= k < soff + n]
        if so.default is not None:
            have = set(k for k, _ in cells)
            k = 0
            while k < n:
                if k not in have:
                    try:
                        v = so.default(soff + k, 8, None)
                    except Unsupported:
                        v = None
                    if v is not None:
                        so.cells[soff + k] = (8, v)
                        cells.append((k, (8, v)))
                k += 8
        o = st.w(d.obj)
        if o.kind == "global" and not o.const:
            self.global_writes.append((d.obj, self.loc(I)))
        if o.log:
            raise Unsupported("memcpy into logged array")
        for k in [k for k, (sz, _) in o.cells.items() if k < doff + n and doff < k + sz]:
            del o.cells[k]
        for k, c in cells:
            if k + c[0] > n:
                # clip constant
                cv = c[1].const() if isinstance(c[1], Poly) else None
                if isinstance(cv, int):
                    for i in range(n - k):
                        o.cells[doff + k + i] = (1, K((cv >> (8 * i)) & 255))
                    continue
                raise Unsupported("memcpy splits a cell")
            o.cells[doff + k] = c
        # source cell beginning before soff
        for k, (sz, v) in list(so.cells.items()):
            if k < soff < k + sz:
                cv = v.const() if isinstance(v, Poly) else None
                if isinstance(cv, int):
                    for i in range(k + sz - soff):
                        if i < n:
                            o.cells[doff + i] = (1, K((cv >> (8 * (soff - k + i))) & 255))

    def memset(self, st, d, v, n, I=None):
        if n == 0:
            return
        o = st.w(d.obj)
        if o.kind == "global" and not o.const:
            self.global_writes.append((d.obj, self.loc(I)))
        off = d.off.const()
        if off is None:
            raise Unsupported("memset symbolic offset")
        for k in [k for k, (sz, _) in o.cells.items() if k < off + n and off < k + sz]:
            del o.cells[k]
        c = v.const() if isinstance(v, Poly) else None
        if c is None:
            raise Unsupported("memset value")
        c &= 255
        i = 0
        while i < n:
            s = 8 if (off + i) % 8 == 0 and i + 8 <= n else 1
            x = int.from_bytes(bytes([c] * s), "little")
            o.cells[off + i] = (s, K(self.wrap(x, 8 * s) if c else 0))
            i += s

    def f64(self):
        if not hasattr(self, "_f64"):
            t = ir.Ty()
            t.kind, t.size, t.alloc, t.width, t.elem, t.n, t.fields, t.offs = ir.TK_DOUBLE, 8, 8, None, None, None, None, None
            self._f64 = t
        return self._f64

    @property
    def i64(self):
        if not hasattr(self, "_i64"):
            t = ir.Ty()
            t.kind, t.size, t.alloc, t.width, t.elem, t.n, t.fields, t.offs = ir.TK_INT, 8, 8, 64, None, None, None, None
            self._i64 = t
        return self._i64

    # ------------------------------------------------------------ joins
    def vite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list) and isinstance(b, list):
            return [self.vite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, BExpr) and isinstance(b, BExpr):
            return P.bite(c, a, b)
        if isinstance(a, BExpr):
            a = self.num(a)
        if isinstance(b, BExpr):
            b = self.num(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return P.ite(c, a, b)
        if isinstance(a, Poly) and isinstance(b, (Ptr, PtrIte)):
            b = self.ptrtoint(b)
            return P.ite(c, a, b)
        if isinstance(b, Poly) and isinstance(a, (Ptr, PtrIte)):
            return P.ite(c, self.ptrtoint(a), b)
        if a == b:
            return a
        return self.pite(c, a, b)

    def merge_states(self, c, a, b, base_events):
        s = State()
        for oid in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is y:
                s.mem[oid] = x
            elif x is None:
                s.mem[oid] = y
            elif y is None:
                s.mem[oid] = x
            else:
                o = x.clone()
                if x.name != y.name:
                    o.name = "heap?"            # freed on one side only
                for off in x.cells.keys() | y.cells.keys():
                    cx, cy = x.cells.get(off), y.cells.get(off)
                    if cx is not None and cx is cy:
                        continue
                    if cx is None:
                        v = x.default(off, cy[0], None) if x.default else UNDEF
                        o.cells[off] = (cy[0], self.vite(c, v, cy[1]) if v is not None else cy[1])
                    elif cy is None:
                        v = y.default(off, cx[0], None) if y.default else UNDEF
                        o.cells[off] = (cx[0], self.vite(c, cx[1], v) if v is not None else cx[1])
                    elif cx[0] == cy[0]:
                        o.cells[off] = (cx[0], self.vite(c, cx[1], cy[1]))
                    else:
                        raise Unsupported("merge of different cell widths")
                if len(x.log) != len(y.log) or x.log != y.log:
                    # keep both logs guarded
                    n = 0
                    while n < min(len(x.log), len(y.log)) and x.log[n] == y.log[n]:
                        n += 1
                    o.log = list(x.log[:n])
                    for (so, sv, sty, l) in x.log[n:]:
                        o.log.append((so, P.apoly(P.atom("guarded", c, self.num(sv))) if isinstance(sv, (Poly, BExpr)) else sv, sty, l))
                    for (so, sv, sty, l) in y.log[n:]:
                        o.log.append((so, P.apoly(P.atom("guarded", P.bnot(c), self.num(sv))) if isinstance(sv, (Poly, BExpr)) else sv, sty, l))
                s.mem[oid] = o
                s.own.add(oid)
        n = len(base_events)
        ev = list(base_events)
        for e in a.events[n:]:
            ev.append((P.band(c, e[0]),) + e[1:])
        nc = P.bnot(c)
        for e in b.events[n:]:
            ev.append((P.band(nc, e[0]),) + e[1:])
        s.events = tuple(ev)
        return s

    # ------------------------------------------------------------ execution
    def call(self, name, args, st):
        fn = self.mod.func(name)
        self.functions.add(name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        an = ir.analyse_cfg(fn)
        env = dict(zip(fn.params, args))
        try:
            outs = self.region(fn, an, 0, None, frozenset(), env, st)
        finally:
            self.depth -= 1
        outs = [o for o in outs if o.stop == "ret"]
        if not outs:
            return None, None          # never returns
        if len(outs) > 1:
            raise Unsupported("multiple ret outcomes")
        return outs[0].ret, outs[0].st

    def loc(self, I):
        if I is None:
            return ""
        return f"{I.file}:{I.line}"

    def phis(self, fn, block, prev, env, st):
        r = {}
        for p in fn.blocks[block].phis:
            for b, v in p.ops:
                if b == prev:
                    r[p.id] = self.val(v, env, st)
                    break
            else:
                raise Unsupported("phi without edge")
        return r

    def val(self, o, env, st):
        if o[0] == "s":
            try:
                return env[o[1]]
            except KeyError:
                raise Unsupported("use of undefined SSA value")
        return self.cval(o, st)

    def region(self, fn, an, block, phis, stops, env, st, inloop=None):
        """run from `block` (phi values already computed) until a block of `stops`, ret or death.
        returns list of Outcome, at most one per stop."""
        outs = []
        guard = TRUE
        cur = block
        loopcount = {}
        while True:
            if phis:
                env.update(phis)
            phis = None
            # loop header entered from outside
            if cur in an["loops"] and cur != inloop and not loopcount.get(("in", cur)):
                loopcount[("in", cur)] = True
                snap_env, snap_st = dict(env), st.copy()
                ev_len = len(st.events)
                saved = (self.nobj, len(self.loops))
                try:
                    res = self.region(fn, an, cur, None, stops | self.loop_exits(fn, an, cur), env, st.copy(), inloop=cur)
                except LoopUnknown as e:
                    res = None
                    if self.unroll:
                        del self.loops[saved[1]:]
                        res = self.unrolled(fn, an, cur, dict(snap_env), snap_st.copy(), stops)
                    if res is not None:
                        pass
                    elif not self.summary_loops:
                        raise Unsupported(f"loop with unknown exit in {fn.name}")
                    else:
                        del self.loops[saved[1]:]
                        res = self.summarise(fn, an, cur, snap_env, snap_st, stops, e)
                cont = None
                exits = self.loop_exits(fn, an, cur) - stops
                keep = []
                for o in res:
                    if o.stop in exits:
                        if cont is not None:
                            # several distinct exit blocks: continue each one and merge outcomes
                            cont.append(o)
                        else:
                            cont = [o]
                    else:
                        keep.append(o)
                outs = self.add_outs(outs, keep, guard)
                if cont is None:
                    return outs
                if len(cont) == 1:
                    o = cont[0]
                    guard = P.band(guard, o.guard)
                    cur, phis, env, st = o.stop, o.phis, o.env, o.st
                    continue
                acc = None
                for o in cont:
                    sub = self.region(fn, an, o.stop, o.phis, stops, o.env, o.st)
                    sub = [Outcome(P.band(o.guard, x.guard), x.stop, x.phis, x.env, x.st, x.ret) for x in sub]
                    acc = sub if acc is None else self.merge_outs(o.guard, sub, acc, ())
                return self.add_outs(outs, acc, guard)
            B = fn.blocks[cur]
            term = B.ins[-1]
            dead = False
            for I in B.ins[:-1]:
                self.steps += 1
                r = self.step(fn, I, env, st)
                if r is not None:
                    st = r
                    if st == "dead":
                        dead = True
                        break
            if dead:
                return outs
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            self.visit(term)
            op = term.op
            if op == "invoke":
                r = self.step(fn, term, env, st)
                if r is not None:
                    st = r
                    if st == "dead":
                        return outs
                nxt = term.x["normal"]
            elif op == "ret":
                v = self.val(term.ops[0], env, st) if term.ops else None
                outs.append(Outcome(guard, "ret", None, env, st, v))
                return outs
            elif op in ("unreachable", "resume"):
                return outs
            elif op == "br":
                if len(term.x) == 1:
                    nxt = term.x[0]
                else:
                    c = self.val(term.ops[0], env, st)
                    if c is UNDEF:
                        c = P.batom("undefcond", self.loc(term))
                    if not isinstance(c, BExpr):
                        c = self.conv(c, self.i1())
                    if c is TRUE:
                        nxt = term.x[0]
                    elif c is FALSE:
                        nxt = term.x[1]
                    elif term.x[0] == term.x[1]:
                        nxt = term.x[0]
                    else:
                        r = self.split(fn, an, cur, [(c, term.x[0]), (P.bnot(c), term.x[1])], stops, env, st, inloop, outs, guard)
                        if r is None:
                            return outs
                        cur, phis, env, st, guard, outs = r
                        if cur is None:
                            return outs
                        if cur in stops:
                            outs = self.add_outs(outs, [Outcome(TRUE, cur, phis, env, st)], guard)
                            return outs
                        continue
            elif op == "switch":
                v = self.val(term.ops[0], env, st)
                v = self.num(v)
                c = v.const()
                if c is not None:
                    nxt = term.x[0]
                    for k, b in term.x[1]:
                        if k == c:
                            nxt = b
                            break
                else:
                    br = []
                    rest = TRUE
                    groups = {}
                    for k, b in term.x[1]:
                        groups.setdefault(b, []).append(P.bcmp("eq", v - K(k)))
                    for b, cs in groups.items():
                        cc = P.bor(*cs)
                        br.append((cc, b))
                    dflt = term.x[0]
                    neg = P.bnot(P.bor(*[x[0] for x in br]))
                    br.append((neg, dflt))
                    # nested two-way splits
                    r = self.split(fn, an, cur, br, stops, env, st, inloop, outs, guard)
                    if r is None:
                        return outs
                    cur, phis, env, st, guard, outs = r
                    if cur is None:
                        return outs
                    if cur in stops:
                        outs = self.add_outs(outs, [Outcome(TRUE, cur, phis, env, st)], guard)
                        return outs
                    continue
            else:
                raise Unsupported("terminator " + op)
            ph = self.phis(fn, nxt, cur, env, st)
            if nxt in stops:
                outs = self.add_outs(outs, [Outcome(TRUE, nxt, ph, env, st)], guard)
                return outs
            if nxt in an["loops"] and nxt == inloop:
                loopcount[nxt] = loopcount.get(nxt, 0) + 1
                if loopcount[nxt] > self.loop_cap:
                    raise LoopUnknown(nxt)
            elif nxt in an["loops"]:
                loopcount.pop(("in", nxt), None)
            cur, phis = nxt, ph

    def i1(self):
        if not hasattr(self, "_i1"):
            t = ir.Ty()
            t.kind, t.size, t.alloc, t.width, t.elem, t.n, t.fields, t.offs = ir.TK_INT, 1, 1, 1, None, None, None, None
            self._i1 = t
        return self._i1

    def loop_exits(self, fn, an, h):
        body = an["loops"][h]
        return frozenset(s for b in body for s in fn.blocks[b].succ if s not in body)

    def split(self, fn, an, cur, branches, stops, env, st, inloop, outs, guard):
        """unknown branch: analyse every side up to the immediate post-dominator and join"""
        dead = an["dead"]
        if inloop is not None:
            body = an["loops"][inloop]
            live = [(c, b) for c, b in branches if b not in dead]
            inside = [b for _, b in live if b in body and b != inloop]
            # a side that leaves the loop, or a back edge, under an unknown condition
            if not getattr(self, "_summ", None) or self._summ[-1] != (fn.name, inloop):
                if any(b not in body for _, b in live) and any(b in body for _, b in live):
                    raise LoopUnknown(inloop, branches[0][0])
                if any(b == inloop for _, b in live) and len({b for _, b in live}) > 1 and any(b not in body for _, b in live):
                    raise LoopUnknown(inloop, branches[0][0])
        pd = an["ipdom"].get(cur)
        st2 = frozenset(stops | ({pd} if pd is not None and pd != -1 else set()))
        if inloop is not None and (not getattr(self, "_summ", None) or self._summ[-1] != (fn.name, inloop)):
            body = an["loops"][inloop]
            if pd == -1 or pd not in body:
                # joins only outside the loop: each side may iterate again
                live = [b for _, b in branches if b not in dead]
                if any(b in body for b in live):
                    raise LoopUnknown(inloop, branches[0][0])
        base = st.events
        acc = None
        for c, b in reversed(branches):
            if c is FALSE:
                continue
            s = st.copy()
            e = dict(env)
            if b in dead:
                self.assumed_dead.append((c, self.loc(fn.blocks[cur].ins[-1]), fn.name))
                s.events = s.events
                sub = self.region_dead(fn, an, b, cur, e, s, c)
                continue
            ph = self.phis(fn, b, cur, e, s)
            if b in st2:
                sub = [Outcome(TRUE, b, ph, e, s)]
            else:
                il = inloop if (inloop is not None and b in an["loops"][inloop]) else None
                # entering nested header handled by region itself
                sub = self.region(fn, an, b, ph, st2, e, s, il) if not (il is not None and b == il) else [Outcome(TRUE, b, ph, e, s)]
            if acc is None:
                acc = [Outcome(P.band(c, o.guard), o.stop, o.phis, o.env, o.st, o.ret) for o in sub] if len(branches) > 1 else sub
                accraw = True
            else:
                acc = self.merge_outs(c, sub, acc, base)
        if acc is None:
            return None
        # simplify guards: exhaustive
        nxt = None
        keep = []
        for o in acc:
            if o.stop == pd and pd not in stops:
                nxt = o
            else:
                keep.append(o)
        total = [o for o in acc]
        if len(total) == 1:
            total[0].guard = TRUE
        outs = self.add_outs(outs, keep, guard)
        if nxt is None:
            return (None, None, None, None, None, outs)
        return (nxt.stop, nxt.phis, nxt.env, nxt.st, P.band(guard, nxt.guard), outs)

    def region_dead(self, fn, an, b, cur, e, s, c):
        """side that ends in throw/abort: record the events (e.g. the throw) but no state"""
        self.dead_conds = getattr(self, "dead_conds", [])
        self.dead_conds.append((c, self.loc(fn.blocks[cur].ins[-1])))
        return []

    def merge_outs(self, c, A, Bs, base):
        """outcomes A hold under c, outcomes Bs under not c"""
        res = []
        bs = {o.stop: o for o in Bs}
        nc = P.bnot(c)
        for o in A:
            p = bs.pop(o.stop, None)
            if p is None:
                res.append(Outcome(P.band(c, o.guard), o.stop, o.phis, o.env, o.st, o.ret))
            else:
                g = P.bor(P.band(c, o.guard), p.guard)
                ph = None
                if o.phis is not None:
                    ph = {k: self.vite(c, v, p.phis[k]) for k, v in o.phis.items()}
                env = {}
                for k, v in o.env.items():
                    if k in p.env:
                        w = p.env[k]
                        env[k] = v if v is w else v if type(v) is type(w) and v == w else self.vite_safe(c, v, w)
                ret = None
                if o.stop == "ret":
                    ret = None if o.ret is None else self.vite(c, o.ret, p.ret)
                res.append(Outcome(g, o.stop, ph, env, self.merge_states(c, o.st, p.st, base), ret))
        for p in bs.values():
            res.append(p)
        return res

    def vite_safe(self, c, v, w):
        try:
            return self.vite(c, v, w)
        except Unsupported:
            return UNDEF

    def add_outs(self, outs, new, guard):
        for o in new:
            o.guard = P.band(guard, o.guard)
            for i, p in enumerate(outs):
                if p.stop == o.stop:
                    # earlier outcome p holds under p.guard, later under not p.guard
                    m = self.merge_outs(p.guard, [Outcome(TRUE, p.stop, p.phis, p.env, p.st, p.ret)],
                                        [o], ())
                    m[0].guard = P.bor(p.guard, o.guard)
                    m[0].st.events = self.merge_events(p, o)
                    outs = outs[:i] + m + outs[i + 1:]
                    break
            else:
                outs = outs + [o]
        return outs

    def merge_events(self, p, o):
        a, b = p.st.events, o.st.events
        n = 0
        while n < min(len(a), len(b)) and a[n] is b[n]:
            n += 1
        ev = list(a[:n])
        for e in a[n:]:
            ev.append((P.band(p.guard, e[0]),) + e[1:])
        ng = P.bnot(p.guard)
        for e in b[n:]:
            ev.append((P.band(ng, e[0]),) + e[1:])
        return tuple(ev)

    # ------------------------------------------------------------ loops
    def summarise(self, fn, an, h, env, st, stops, exc):
        """loop with a run-time dependent exit: header phis and modified cells become fresh
        atoms; one symbolic pass over the body yields back-edge values, exits and events."""
        self._summ = getattr(self, "_summ", [])
        body = an["loops"][h]
        exits = self.loop_exits(fn, an, h)
        Bh = fn.blocks[h]
        start = {p.id: env[p.id] for p in Bh.phis}
        modified = {}         # (oid, off) -> size
        nloop = len(self.loops)
        for _round in range(12):
            e = dict(env)
            s = st.copy()
            s.own = set()
            hv = {}
            for p in Bh.phis:
                a = start[p.id]
                if ("inv", p.id) in modified:
                    pass
                if p.ty.kind == ir.TK_PTR:
                    hv[p.id] = self.hdr_ptr(modified, p, a, h)
                elif p.ty.kind == ir.TK_INT and p.ty.width == 1:
                    hv[p.id] = P.batom("loop", f"{fn.name[-40:]}:{h}:{p.id}")
                else:
                    lo = None
                    if p.ty.kind == ir.TK_INT and isinstance(a, Poly) and ("mono", p.id) in modified:
                        lo = P.interval(a)[0]
                    self.fresh += 1
                    hv[p.id] = P.var(f"loop{h}.{p.id}!{self.fresh}", isint=p.ty.kind == ir.TK_INT, lo=lo)
            e.update(hv)
            cellat = {}
            for key, size in modified.items():
                if key[0] in ("inv", "mono", "ptrvar"):
                    continue
                oid, off = key
                o = s.w(oid)
                old = o.cells.get(off)
                isint = old is not None and isinstance(old[1], Poly) and old[1].isint() and old[1].const() is not None
                if old is not None and isinstance(old[1], (Ptr, PtrIte)):
                    continue
                self.fresh += 1
                v = P.var(f"loopmem{h}.{oid}+{off}!{self.fresh}", isint=isint)
                o.cells[off] = (size, v)
                cellat[key] = v
            pre = {oid: dict(o.cells) for oid, o in s.mem.items()}
            del self.loops[nloop:]
            self._summ.append((fn.name, h))
            try:
                # execute one iteration: header executed first with stops = {h} U exits
                res = self.region(fn, an, h, None, frozenset(stops | exits | {h}), e, s, inloop=h)
            finally:
                self._summ.pop()
            changed = False
            for o in res:
                for oid, ob in o.st.mem.items():
                    if oid not in pre:
                        continue
                    if st.mem.get(oid) is ob:
                        continue
                    for off, c in ob.cells.items():
                        old = pre[oid].get(off)
                        if old is not None and (old is c or (old[0] == c[0] and self.same(old[1], c[1]))):
                            continue
                        if old is None and ob.default is not None and off not in modified:
                            # materialised default read
                            try:
                                dv = ob.default(off, c[0], None)
                            except Unsupported:
                                dv = None
                            if dv is not None and self.same(dv, c[1]):
                                continue
                        if (oid, off) not in modified:
                            modified[(oid, off)] = c[0]
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop summary does not stabilise")
        back = [o for o in res if o.stop == h]
        summ = dict(fn=fn.name, header=h, start=start, phi=hv,
                    next={p.id: (back[0].phis[p.id] if back else None) for p in Bh.phis},
                    cont=back[0].guard if back else FALSE,
                    mem_start={k: (st.mem[k[0]].cells.get(k[1], (0, UNDEF))[1] if k[0] in st.mem else UNDEF) for k in cellat},
                    mem=cellat,
                    mem_next={k: (back[0].st.mem[k[0]].cells[k[1]][1]) for k in cellat} if back else {},
                    body_events=tuple(back[0].st.events[len(st.events):]) if back else (),
                    exits=[(o.guard, o.stop, o.phis, tuple(o.st.events[len(st.events):])) for o in res if o.stop != h],
                    loc=self.loc(Bh.ins[0]) if Bh.ins else "")
        self.loops.append(summ)
        outs = [o for o in res if o.stop != h]
        for o in outs:
            o.st.events = st.events + ((TRUE, "loop", summ, summ["loc"]),) + tuple(o.st.events[len(st.events):])
        return outs

    def unrolled(self, fn, an, h, env, st, stops):
        """loop whose exits depend on data but that is bounded by a constant: each pass is analysed once and its exits
        are joined under their guards.  None when the bound is not reached within self.unroll passes."""
        self._summ = getattr(self, "_summ", [])
        exits = self.loop_exits(fn, an, h)
        guard, outs, phis = TRUE, [], None
        for _ in range(self.unroll):
            self._summ.append((fn.name, h))
            try:
                res = self.region(fn, an, h, phis, frozenset(stops | exits | {h}), env, st, inloop=h)
            finally:
                self._summ.pop()
            back = [o for o in res if o.stop == h]
            outs = self.add_outs(outs, [o for o in res if o.stop != h], guard)
            if not back or back[0].guard is FALSE:
                return outs
            b = back[0]
            guard = P.band(guard, b.guard)
            phis, env, st = b.phis, b.env, b.st
        return None

    def same(self, a, b):
        if a is b:
            return True
        try:
            return type(a) is type(b) and a == b
        except Exception:
            return False

    def hdr_ptr(self, modified, p, a, h):
        if isinstance(a, Ptr):
            self.fresh += 1
            return Ptr(a.obj, P.var(f"loop{h}.{p.id}!{self.fresh}", isint=True))
        self.fresh += 1
        return Ptr(f"ext:loopptr{h}.{p.id}!{self.fresh}", ZERO)

    # ------------------------------------------------------------ instructions
    def visit(self, I):
        if I.line and I.file.startswith(self.repo) or (I.line and "/Caribou/" in I.file):
            self.visited.setdefault(I.file, set()).add(I.line)

    def step(self, fn, I, env, st):
        op = I.op
        self.visit(I)
        if op in ("call", "invoke"):
            return self.do_call(fn, I, env, st)
        if op == "alloca":
            n = 1
            if I.ops:
                c = self.num(self.val(I.ops[0], env, st)).const()
                if c is None:
                    raise Unsupported("dynamic alloca")
                n = c
            oid = self.new_obj(st, "local", I.x.alloc * n, None, name=f"a{I.id}")
            env[I.id] = Ptr(oid, ZERO)
            return
        v = [self.val(o, env, st) for o in I.ops]
        if op == "load":
            env[I.id] = self.load(st, v[0], I.ty, I)
        elif op == "store":
            self.store(st, v[1], v[0], I.x, I)
        elif op == "gep":
            if I.ty.kind == ir.TK_VEC:
                raise Unsupported("vector gep")
            env[I.id] = self.gep(v[0], I.x, v[1:])
        elif op in ("extractvalue",):
            x = v[0]
            for i in I.x:
                x = x[i] if x is not UNDEF else UNDEF
            env[I.id] = x
        elif op == "insertvalue":
            env[I.id] = self.insertv(v[0], v[1], I.x, I.ty)
        elif op == "extractelement":
            i = v[1].const()
            if i is None:
                raise Unsupported("symbolic extractelement")
            env[I.id] = UNDEF if v[0] is UNDEF else v[0][i]
        elif op == "insertelement":
            x = [UNDEF] * I.ty.n if v[0] is UNDEF else list(v[0])
            i = v[2].const()
            if i is None:
                raise Unsupported("symbolic insertelement")
            x[i] = v[1]
            env[I.id] = x
        elif op == "shufflevector":
            a = v[0] if v[0] is not UNDEF else None
            b = v[1] if v[1] is not UNDEF else None
            n = len(a) if a is not None else (len(b) if b is not None else I.ty.n)
            r = []
            for m in I.x:
                if m < 0:
                    r.append(UNDEF)
                elif m < n:
                    r.append(a[m] if a is not None else UNDEF)
                else:
                    r.append(b[m - n] if b is not None else UNDEF)
            env[I.id] = r
        elif op == "select":
            c, a, b = v
            if isinstance(c, list):
                env[I.id] = [self.vite(self.tob(x), y, z) for x, y, z in zip(c, self.aslist(a, I.ty), self.aslist(b, I.ty))]
            else:
                if c is UNDEF:
                    raise Unsupported("select undef")
                env[I.id] = self.vite(self.tob(c), a, b)
        elif op == "freeze":
            env[I.id] = v[0]
        elif op in ("landingpad",):
            env[I.id] = UNDEF
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            raise Unsupported("atomicrmw")
        else:
            env[I.id] = self.arith(op, v, I)

    def tob(self, c):
        return c if isinstance(c, BExpr) else self.conv(c, self.i1())

    def aslist(self, a, t):
        return [UNDEF] * t.n if a is UNDEF else a

    def insertv(self, agg, x, idx, t):
        if agg is UNDEF or agg is None:
            n = t.n if t.n is not None else len(t.fields)
            agg = [UNDEF] * n
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = x
        else:
            sub = t.elem if t.elem else t.fields[idx[0]]
            agg[idx[0]] = self.insertv(agg[idx[0]], x, idx[1:], sub)
        return agg

    def arith(self, op, v, I):
        if I.ty.kind == ir.TK_VEC:
            n = I.ty.n
            vs = [x if isinstance(x, list) else [UNDEF] * n if x is UNDEF else x for x in v]
            J = ir.Instr()
            J.op, J.ty, J.x, J.line, J.file, J.id, J.ops, J.bb = op, I.ty.elem, I.x, I.line, I.file, I.id, None, I.bb
            if isinstance(J.x, tuple):
                J.x = (J.x[0], J.x[1].elem if J.x[1].elem else J.x[1])
            elif isinstance(J.x, ir.Ty) and J.x.elem:
                J.x = J.x.elem
            return [self.arith(op, [x[i] for x in vs], J) for i in range(n)]
        if any(x is UNDEF for x in v):
            return UNDEF
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            a = self.num(v[0])
            if op == "fneg":
                return -a
            b = self.num(v[1])
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                try:
                    return P.div(a, b)
                except ZeroDivisionError:
                    return P.apoly(P.atom("div0", a))
            raise Unsupported("frem")
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            w = I.ty.width
            if w == 1:
                a, b = self.tob(v[0]), self.tob(v[1])
                if op == "and" or op == "mul":
                    return P.band(a, b)
                if op == "or":
                    return P.bor(a, b)
                if op in ("xor", "add", "sub"):
                    return P.bor(P.band(a, P.bnot(b)), P.band(P.bnot(a), b))
                raise Unsupported("i1 " + op)
            a, b = self.num(v[0]), self.num(v[1])
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                return K(self.iconst(op, ca, cb, w))
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return a * b
            if op == "shl" and cb is not None:
                return a.scale(1 << cb)
            if op == "ashr" and cb is not None and cb >= 16 and w == 64 and a.t and ca is None:
                s = min((int(c) & -int(c)).bit_length() - 1 if Fraction(c).denominator == 1 else 0 for c in a.t.values())
                s = min(s, cb)
                for bits in (32, 16, 8):          # sign extension of the low bits written as a pair of shifts
                    if s == 64 - bits:
                        return self.narrow_int(a.scale(Fraction(1, 1 << s)), bits)
            if op in ("lshr", "ashr") and cb is not None:
                return self.idiv(a, K(1 << cb), op)
            if op in ("udiv", "sdiv"):
                return self.idiv(a, b, op)
            if op in ("urem", "srem"):
                return a - b * self.idiv(a, b, op)
            if op == "and":
                if ca is not None:
                    a, b, ca, cb = b, a, cb, ca
                if cb is not None:
                    m = cb & ((1 << w) - 1)
                    if m == (1 << w) - 1:
                        return a
                    if m & (m + 1) == 0:      # low mask
                        if all(c % (m + 1) == 0 for c in a.t.values()):
                            return ZERO
                        lo, hi = P.interval(a)
                        if lo is not None and lo >= 0 and hi is not None and hi <= m:
                            return a
                        return a - self.idiv(a, K(m + 1), "udiv").scale(m + 1)
                    inv = (~m) & ((1 << w) - 1)
                    if inv & (inv + 1) == 0:     # clear low bits
                        if all(c % (inv + 1) == 0 for c in a.t.values()):
                            return a
                        return self.idiv(a, K(inv + 1), "udiv").scale(inv + 1)
            if op == "or":
                if ca is not None:
                    a, b, ca, cb = b, a, cb, ca
                if cb is not None and cb >= 0:
                    k = cb.bit_length()
                    if all(c % (1 << k) == 0 for c in a.t.values()):
                        return a + b
                if cb == 0:
                    return a
            if op == "xor" and cb == -1:
                return -a - ONE
            x, y = sorted([a, b], key=lambda p: hash(p)) if op in ("and", "or", "xor") else (a, b)
            return P.apoly(P.atom("bit" + op, x, y, isint=True))
        if op == "icmp":
            return self.icmp(I.x[0], v[0], v[1], I.x[1])
        if op == "fcmp":
            a, b = self.num(v[0]), self.num(v[1])
            p = I.x
            if p == "ord":
                return TRUE
            if p == "uno":
                return FALSE
            r = p[1:]
            d = a - b
            if r == "eq":
                return P.bcmp("eq", d)
            if r == "ne":
                return P.bnot(P.bcmp("eq", d))
            if r == "lt":
                return P.bcmp("lt", d)
            if r == "le":
                return P.bcmp("le", d)
            if r == "gt":
                return P.bcmp("lt", -d)
            if r == "ge":
                return P.bcmp("le", -d)
            if p == "true":
                return TRUE
            if p == "false":
                return FALSE
        if op in ("zext", "sext", "trunc"):
            x = v[0]
            if op == "trunc" and I.ty.width == 1:
                x = self.num(x)
                c = x.const()
                if c is not None:
                    return P.bconst(c & 1)
                if len(x.t) == 1:
                    (m, cf), = x.t.items()
                    if cf == 1 and len(m) == 1 and m[0][1] == 1:
                        at = P.Atom.byid[m[0][0]]
                        if at.kind == "ite" and at.args[1] == ONE and at.args[2] == ZERO:
                            return at.args[0]
                        if at.kind == "ite" and at.args[1] == ZERO and at.args[2] == ONE:
                            return P.bnot(at.args[0])
                return P.bnot(P.bcmp("eq", x))
            sw = I.x.width
            if sw == 1:
                b = self.tob(x)
                one = ONE if op == "zext" else K(-1)
                return P.ite(b, one, ZERO)
            x = self.num(x)
            c = x.const()
            if c is not None:
                if op == "zext":
                    return K(self.wrap(c & ((1 << sw) - 1), I.ty.width))
                if op == "trunc":
                    return K(self.wrap(c, I.ty.width))
            if op == "trunc":
                return self.narrow_int(x, I.ty.width)
            return x
        if op in ("sitofp", "uitofp"):
            x = self.num(v[0])
            if op == "uitofp" and x.const() is not None and x.const() < 0:
                return K(x.const() + (1 << I.x.width))
            if NARROW["float"] and I.ty.kind == ir.TK_FLOAT:
                return P.narrow(x, "f32")
            return x
        if op in ("fptosi", "fptoui"):
            return self.narrow_int(P.fptosi(self.num(v[0])), I.ty.width)
        if op == "fptrunc" and NARROW["float"] and I.ty.kind == ir.TK_FLOAT:
            return P.narrow(self.num(v[0]), "f32")
        if op in ("fptrunc", "fpext"):
            return self.num(v[0])
        if op == "bitcast":
            return v[0]
        if op == "ptrtoint":
            return self.ptrtoint(v[0])
        if op == "inttoptr":
            return self.inttoptr(v[0], None)
        raise Unsupported("op " + op)

    def narrow_int(self, x, width):
        if not NARROW["int"] or width not in (8, 16, 32):
            return x
        lo, hi = P.interval(x)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << width:
            return x
        return P.narrow(x, "i%d" % width)

    def idiv(self, a, b, op):
        if op in ("sdiv", "srem", "ashr"):
            # exact division
            cb = b.const()
            if cb is not None and all(Fraction(c) % cb == 0 for c in a.t.values()):
                return a.scale(Fraction(1, cb))
            d = P.exact_div(a, b) if b.t else None
            if d is not None:
                return d
            if op != "ashr" and not P.is_nonneg(a):
                return P.apoly(P.atom("sdiv", a, b, isint=True))
        return P.udiv(a, b)

    def iconst(self, op, a, b, w):
        M = (1 << w) - 1
        ua, ub = a & M, b & M
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "udiv":
            r = ua // ub if ub else 0
        elif op == "urem":
            r = ua % ub if ub else 0
        elif op == "sdiv":
            r = int(Fraction(a, b)) if b else 0
        elif op == "srem":
            r = a - b * int(Fraction(a, b)) if b else 0
        elif op == "shl":
            r = ua << ub
        elif op == "lshr":
            r = ua >> ub
        elif op == "ashr":
            r = a >> ub
        elif op == "and":
            r = ua & ub
        elif op == "or":
            r = ua | ub
        else:
            r = ua ^ ub
        return self.wrap(r, w)

    def icmp(self, pred, a, b, t):
        if isinstance(a, list):
            return [self.icmp(pred, x, y, t.elem) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, PtrIte, FnPtr)) or isinstance(b, (Ptr, PtrIte, FnPtr)):
            return self.pcmp(pred, a, b)
        if t.kind == ir.TK_INT and t.width == 1:
            a, b = self.tob(a), self.tob(b)
            x = P.bor(P.band(a, P.bnot(b)), P.band(P.bnot(a), b))
            return x if pred == "ne" else P.bnot(x)
        a, b = self.num(a), self.num(b)
        ca, cb = a.const(), b.const()
        w = t.width or 64
        if ca is not None and cb is not None:
            if pred[0] == "u":
                M = (1 << w) - 1
                ca, cb = ca & M, cb & M
            r = pred[-2:]
            return P.bconst({"eq": ca == cb, "ne": ca != cb, "gt": ca > cb, "ge": ca >= cb, "lt": ca < cb, "le": ca <= cb}[r])
        d = a - b
        if pred == "eq":
            return P.bcmp("eq", d)
        if pred == "ne":
            return P.bnot(P.bcmp("eq", d))
        if pred[0] == "u":
            # unsigned compare over unbounded integers
            if cb is not None and cb < 0:
                b = K(cb + (1 << w))
            if ca is not None and ca < 0:
                a = K(ca + (1 << w))
            d = a - b
            r = pred[1:]
            if r in ("gt", "ge"):
                a, b, d = b, a, -d
                r = {"gt": "lt", "ge": "le"}[r]
            main = P.bcmp(r, d)
            # a <u b : a non-negative required (b assumed non-negative)
            if P.is_nonneg(a) or not self.maybe_negative(a):
                if self.maybe_negative(b) and not P.is_nonneg(b):
                    # b may wrap: b<0 means huge
                    return P.bor(main, P.bcmp("lt", b))
                return main
            if self.maybe_negative(b) and not P.is_nonneg(b):
                return P.bcmp(r, d)
            return P.band(main, P.bcmp("le", -a))
        r = pred[1:]
        if r == "lt":
            return P.bcmp("lt", d)
        if r == "le":
            return P.bcmp("le", d)
        if r == "gt":
            return P.bcmp("lt", -d)
        return P.bcmp("le", -d)

    def maybe_negative(self, p):
        return any(c < 0 for c in p.t.values()) or any(
            P.Atom.byid[a].lo is None for m in p.t for a, _ in m)

    def pcmp(self, pred, a, b):
        if isinstance(a, PtrIte):
            return P.bite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PtrIte):
            return P.bite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if isinstance(a, Poly):
            a = self.inttoptr(a, None)
        if isinstance(b, Poly):
            b = self.inttoptr(b, None)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            return P.bconst(e if pred == "eq" else not e)
        if a is UNDEF or b is UNDEF:
            return P.batom("undefptr")
        if a.obj == b.obj:
            d = a.off - b.off
            r = pred[-2:]
            if r == "eq":
                return P.bcmp("eq", d)
            if r == "ne":
                return P.bnot(P.bcmp("eq", d))
            if r == "lt":
                return P.bcmp("lt", d)
            if r == "le":
                return P.bcmp("le", d)
            if r == "gt":
                return P.bcmp("lt", -d)
            return P.bcmp("le", -d)
        if "null" in (a.obj, b.obj):
            o = a.obj if b.obj == "null" else b.obj
            if o.startswith("ext:maybenull"):
                x = P.batom("isnull", o)
                return x if pred == "eq" else P.bnot(x)
        if a.obj.startswith("ext:") and b.obj.startswith("ext:"):
            x = P.batom("sameptr", *sorted((repr(a), repr(b))))
            return x if pred == "eq" else P.bnot(x)
        if pred == "eq":
            return FALSE
        if pred == "ne":
            return TRUE
        # relational compare of distinct objects: opaque but consistent
        if pred in ("ult", "ule"):
            return P.batom("addrlt", a.obj, b.obj)
        return P.bnot(P.batom("addrlt", a.obj, b.obj))

    # ------------------------------------------------------------ calls
    def do_call(self, fn, I, env, st):
        callee = I.x["callee"]
        if callee[0] == "fn":
            name = callee[1]
        elif callee[0] == "s":
            f = env[callee[1]]
            if isinstance(f, FnPtr):
                name = f.name
            else:
                h = self.hooks.get("indirect")
                if h:
                    args = [self.val(o, env, st) for o in I.ops]
                    r = h(self, st, f, args, I)
                    if r is not None:
                        env[I.id], st2 = r
                        return st2
                raise Unsupported(f"indirect call {f!r} {self.loc(I)}")
        else:
            raise Unsupported(f"callee {callee}")
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or \
           name.startswith("llvm.experimental.noalias") or name.startswith("llvm.invariant"):
            env[I.id] = UNDEF
            return
        args = [self.val(o, env, st) for o in I.ops]
        h = self.hooks.get(name)
        if h is None:
            for pre, hh in self.prefix_hooks:
                if name.startswith(pre) or (pre[0] == "*" and pre[1:] in name):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, I, name)
            if r == "dead":
                return "dead"
            env[I.id] = r
            return
        r = self.builtin(name, args, st, I)
        if r is not NotImplemented:
            if isinstance(r, str) and r == "dead":
                return "dead"
            env[I.id] = r
            return
        if self.mod.is_defined(name):
            ret, s2 = self.call(name, args, st)
            if s2 is None:
                return "dead"
            env[I.id] = ret
            return s2
        # unknown external
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        hh = self.hooks.get("external")
        if hh:
            r = hh(self, st, args, I, name)
            if r == "dead":
                return "dead"
            env[I.id] = r
            return
        raise Unsupported(f"external call {name} {self.loc(I)}")

    def builtin(self, n, a, st, I):
        if n.startswith("llvm."):
            b = n[5:]
            if b.startswith("memcpy") or b.startswith("memmove"):
                c = self.num(a[2]).const()
                if c is None:
                    raise Unsupported(f"memcpy of symbolic size {self.loc(I)}")
                self.memcpy(st, a[0], a[1], c, I)
                return UNDEF
            if b.startswith("memset"):
                c = self.num(a[2]).const()
                if c is None:
                    raise Unsupported("memset of symbolic size")
                self.memset(st, a[0], self.num(a[1]), c, I)
                return UNDEF
            if isinstance(a[0], list) if a else False:
                return [self.builtin(n, [x[i] if isinstance(x, list) else x for x in a], st, I) for i in range(len(a[0]))]
            if b.startswith("fmuladd") or b.startswith("fma"):
                return self.num(a[0]) * self.num(a[1]) + self.num(a[2])
            if b.startswith("sqrt"):
                return P.sqrt(self.num(a[0]))
            if b.startswith("fabs"):
                return P.pabs(self.num(a[0]))
            if b.startswith("floor"):
                return P.floor(self.num(a[0]))
            if b.startswith("log."):
                return P.log(self.num(a[0]))
            if b.startswith("pow."):
                return self.fpow(a)
            if b.startswith(("round.", "ceil.", "trunc.", "rint.", "nearbyint.", "exp.", "sin.", "cos.")):
                if b.split(".")[0] in ("round", "ceil", "trunc"):
                    return P.fround(b.split(".")[0], self.num(a[0]))
                return P.apoly(P.atom("fn", b.split(".")[0], self.num(a[0]), isint=b.split(".")[0] in ("rint",)))
            if b.startswith(("umin", "smin", "minnum", "minimum")):
                x, y = self.num(a[0]), self.num(a[1])
                return P.ite(P.bcmp("le", x - y), x, y)
            if b.startswith(("umax", "smax", "maxnum", "maximum")):
                x, y = self.num(a[0]), self.num(a[1])
                return P.ite(P.bcmp("le", y - x), x, y)
            if b.startswith("usub.sat"):
                x, y = self.num(a[0]), self.num(a[1])
                return P.ite(P.bcmp("le", y - x), x - y, ZERO)
            if b.startswith("abs."):
                return P.pabs(self.num(a[0]))
            if b.startswith("ctpop"):
                x = self.num(a[0])
                if x.const() is not None:
                    w = I.ty.width
                    return K(bin(x.const() & ((1 << w) - 1)).count("1"))
                return P.apoly(P.atom("ctpop", x, isint=True, lo=0))
            if b.startswith("expect"):
                return a[0]
            if b.startswith("objectsize"):
                return K(-1)
            if b.startswith("is.constant"):
                return FALSE
            if b.startswith(("umul.with.overflow", "smul.with.overflow")):
                return [self.num(a[0]) * self.num(a[1]), FALSE]
            if b.startswith(("uadd.with.overflow", "sadd.with.overflow")):
                return [self.num(a[0]) + self.num(a[1]), FALSE]
            if b.startswith(("usub.with.overflow", "ssub.with.overflow")):
                x, y = self.num(a[0]), self.num(a[1])
                return [x - y, P.bcmp("lt", x - y) if b[0] == "u" else FALSE]
            if b.startswith("ptrmask"):
                return a[0]
            if b.startswith(("eh.typeid", "eh.")):
                return ZERO
            if b.startswith("vector.reduce"):
                return NotImplemented
            if b.startswith("fshl"):
                raise Unsupported(n)
            if b.startswith("trap"):
                return "dead"
            if b.startswith(("stacksave", "stackrestore", "prefetch", "ubsantrap", "va_")):
                return NULL
            if b.startswith("launder") or b.startswith("strip"):
                return a[0]
            raise Unsupported(n)
        if n in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "calloc", "_ZnwmRKSt9nothrow_t", "aligned_alloc",
                 "_ZN5Eigen8internal14aligned_mallocEm"):
            size = self.num(a[0]).const()
            oid = self.new_obj(st, "heap", size, None, name="heap")
            if n == "calloc":
                c = self.num(a[1]).const()
                o = st.mem[oid]
                for i in range(0, size * c, 8):
                    o.cells[i] = (8, ZERO)
            return Ptr(oid, ZERO)
        if n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
                 "_ZN5Eigen8internal12aligned_freeEPv"):
            self.release(st, a[0], I)
            return UNDEF
        if n in ("__cxa_guard_acquire",):
            return ONE
        if n in ("__cxa_guard_release", "__cxa_guard_abort"):
            if n == "__cxa_guard_release":
                o = st.w(a[0].obj)
                off = a[0].off.const()
                self.punch(o, off, 1)
                o.cells[off] = (1, ONE)
            return UNDEF
        if n in ("__cxa_atexit",):
            return ZERO
        if n.startswith("_ZSt") and "__throw_" in n or n in ("__cxa_throw", "abort", "_ZSt9terminatev", "__cxa_rethrow",
                                                              "__assert_fail", "__cxa_bad_cast", "__clang_call_terminate",
                                                              "__cxa_throw_bad_array_new_length", "exit", "__cxa_pure_virtual"):
            return "dead"
        if n == "sqrt":
            return P.sqrt(self.num(a[0]))
        if n == "log":
            return P.log(self.num(a[0]))
        if n == "pow":
            return self.fpow(a)
        if n == "floor":
            return P.floor(self.num(a[0]))
        if n in ("round", "ceil", "trunc"):
            return P.fround(n, self.num(a[0]))
        if n in ("exp", "sin", "cos", "tan", "acos", "asin", "atan2", "lround"):
            return P.apoly(P.atom("fn", n, *[self.num(x) for x in a]))
        if n == "fabs":
            return P.pabs(self.num(a[0]))
        if n in ("memcpy", "memmove"):
            c = self.num(a[2]).const()
            if c is None:
                raise Unsupported("memcpy symbolic size")
            self.memcpy(st, a[0], a[1], c, I)
            return a[0]
        if n in ("strlen", "bcmp", "memcmp", "memchr"):
            r = self.bytes_fn(n, a, st, I)
            if r is not None:
                return r
        if n == "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm":      # std::string's allocation
            cap = self.num(self.load(st, a[1], self.i64, I)).const()
            if cap is not None:
                return Ptr(self.new_obj(st, "heap", cap + 1, None, name="heap"), ZERO)
        if n == "memset":
            c = self.num(a[2]).const()
            if c is None:
                raise Unsupported("memset symbolic size")
            self.memset(st, a[0], self.num(a[1]), c, I)
            return a[0]
        if n == "__dynamic_cast":
            return self.dynamic_cast(st, a, I)
        return NotImplemented

    @property
    def ptrty(self):
        if not hasattr(self, "_ptr"):
            t = ir.Ty()
            t.kind, t.size, t.alloc, t.width, t.elem, t.n, t.fields, t.offs = ir.TK_PTR, 8, 8, None, None, None, None, None
            self._ptr = t
        return self._ptr

    def dynamic_cast(self, st, a, I):
        """single inheritance: the type information is followed from the object's virtual table"""
        p, dst = a[0], a[2]
        if isinstance(p, PtrIte):
            return self.pite(p.c, self.dynamic_cast(st, [p.a] + a[1:], I), self.dynamic_cast(st, [p.b] + a[1:], I))
        if self.is_bad(p):
            return NULL
        vt = self.load(st, p, self.ptrty, I)
        if not isinstance(vt, Ptr) or not isinstance(dst, Ptr):
            raise Unsupported("dynamic_cast of an unknown object")
        if vt.obj in self.mod.globals:
            self.glob(vt.obj, st)
        if dst.obj in self.mod.globals:
            self.glob(dst.obj, st)
        ti = self.load(st, self.padd(vt, -8), self.ptrty, I)
        for _ in range(20):
            if not isinstance(ti, Ptr):
                break
            if ti.obj == dst.obj:
                return p
            if ti.obj not in self.mod.globals:
                raise Unsupported("dynamic_cast through unknown type information")
            self.glob(ti.obj, st)
            kind = self.load(st, ti, self.ptrty, I)
            k = kind.obj if isinstance(kind, Ptr) else ""
            if "__si_class_type_info" in k:
                ti = self.load(st, self.padd(ti, 16), self.ptrty, I)
            elif "__vmi_class_type_info" in k:
                raise Unsupported("dynamic_cast with multiple inheritance")
            elif "__class_type_info" in k:
                return NULL
            else:
                raise Unsupported("dynamic_cast type information " + k)
        raise Unsupported("dynamic_cast")

    def byte(self, st, p, i, I):
        if not hasattr(self, "_i8"):
            t = ir.Ty()
            t.kind, t.size, t.alloc, t.width, t.elem, t.n, t.fields, t.offs = ir.TK_INT, 1, 1, 8, None, None, None, None
            self._i8 = t
        v = self.load(st, self.padd(p, i), self._i8, I)
        v = self.num(v).const() if isinstance(v, (Poly, BExpr)) else None
        return None if v is None else int(v) & 255

    def bytes_fn(self, n, a, st, I):
        """string functions on known contents, None otherwise"""
        if any(isinstance(x, PtrIte) for x in a[:2]):
            return None
        if n == "strlen":
            for i in range(4096):
                b = self.byte(st, a[0], i, I)
                if b is None:
                    return None
                if b == 0:
                    return K(i)
            return None
        c = self.num(a[2]).const()
        if c is None or c > 4096:
            return None
        for i in range(int(c)):
            x = self.byte(st, a[0], i, I)
            if n == "memchr":
                if x is None:
                    return None
                if x == self.num(a[1]).const() & 255:
                    return self.padd(a[0], i)
                continue
            y = self.byte(st, a[1], i, I)
            if x is None or y is None:
                return None
            if x != y:
                return K(1 if x > y else -1)
        return NULL if n == "memchr" else ZERO

    def release(self, st, p, I):
        """marks a heap object as freed; records frees of anything else"""
        if isinstance(p, Ptr) and p.obj in st.mem:
            o = st.mem[p.obj]
            if o.kind == "heap" and o.name == "heap" and p.off.const() == 0:
                st.w(p.obj).name = "freed"
            elif o.kind != "input":
                self.memory_errors.append(("double free" if o.name == "freed" else "free of memory that was not allocated", self.loc(I)))

    def fpow(self, a):
        e = self.num(a[1]).const()
        x = self.num(a[0])
        if e is not None:
            f = Fraction(e)
            if f.denominator == 1 and abs(f.numerator) <= 8:
                return x ** int(f)
            if f == Fraction(1, 2):
                return P.sqrt(x)
        return P.apoly(P.atom("fn", "pow", x, self.num(a[1])))
