"""Obligations, findings, evidence."""
import json
import os
import pickle
import sys
import time
import traceback

from . import absint as A
from . import build, lin, llvmir as ir, num, poly as P

VERIF = build.VERIF


UNKNOWN = P.var("?unknown")       # result of an operation the analysis could not follow
_UNK = next(iter(P.support(UNKNOWN)))


def unknown(x):
    return isinstance(x, (P.Poly, P.BExpr)) and P.depends(x, _UNK)


def havoc(x, want=None):
    """does x mention a value the analysis abstracted away (loop summary, unknown call)?"""
    if not isinstance(x, (P.Poly, P.BExpr)):
        return False
    ok = P.support(want) if isinstance(want, (P.Poly, P.BExpr)) else ()
    if any(("!" in a.args[0] or a.args[0].startswith("?")) and a not in ok for a in P.support(x)):
        return True
    return any(l.kind == "atom" and l.args[0] in ("loop", "undefcond", "havoc") for l in P.conditions(x)) if isinstance(x, P.Poly) \
        else any(l.kind == "atom" and l.args[0] in ("loop", "undefcond", "havoc") for l in P.leaves(x))


class Guard:
    """one subject of a check: a construct the analysis cannot follow leaves that subject undecided, not the whole check"""

    def __init__(self, chk, subject):
        self.chk, self.subject = chk, subject

    def __enter__(self):
        return self

    def __exit__(self, ty, e, tb):
        if ty is None or not issubclass(ty, Exception) or issubclass(ty, build.CompileError):
            return False
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exception(ty, e, tb)
        self.chk.ob(self.subject, "analysis reaches the result", None, f"{ty.__name__}: {e}")
        return True


class Check:
    def __init__(self, pid, rule, assumptions=(), trusted=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.obs = []             # (subject, rule, status, detail, where)
        self.files = {}           # /repo file -> set(lines)
        self.functions = set()
        self.instructions = 0
        self.skipped = []
        self.modules = {}
        self.verbose = bool(os.environ.get("VERIF_DEBUG"))
        self.notes = []

    # ---------------------------------------------------------------- IR
    def module(self, bc):
        m = self.modules.get(bc)
        if m is None:
            m = self.modules[bc] = ir.Module(bc)
        return m

    def interp(self, bc, **kw):
        it = A.Interp(self.module(bc), repo=build.REPO + "/", **kw)
        return it

    def account(self, it):
        for f, ls in it.visited.items():
            self.files.setdefault(f, set()).update(ls)
        self.functions.update(it.functions)
        self.instructions += it.steps

    def where(self, it, limit=6):
        """/repo construct(s) the values under obligation were computed by"""
        r = []
        for f, ls in sorted(it.visited.items()):
            rel = os.path.relpath(f, build.REPO) if f.startswith(build.REPO) else f
            ls = sorted(x for x in ls if x)
            if ls:
                r.append(f"{rel}:{ls[0]}-{ls[-1]}")
        return r[:limit]

    def eval(self, bc, fn, inputs, nout=0, it=None, state=None, **kw):
        """dataflow through fn(inputs..., double * out): inputs are array names, (name, {index: value}) or scalar values;
        returns (values stored to out, returned value, where, interpreter, final state)"""
        it = it or self.interp(bc, **kw)
        st = state or A.State()
        args = []
        for x in inputs:
            if isinstance(x, (str, tuple)):
                nm, cells = (x, {}) if isinstance(x, str) else x
                p = it.input_array(st, nm)
                for i, v in cells.items():
                    it.store(st, A.Ptr(p.obj, P.K(8 * i)), v if isinstance(v, P.Poly) else P.K(v), it.f64())
                args.append(p)
            else:
                args.append(x)
        out = None
        if nout:
            out = it.output(st, "out")
            args.append(out)
        ret, s = it.call(fn, args, st)
        self.account(it)
        if s is None:                 # every path throws
            return [A.UNDEF] * nout, ret, self.where(it), it, st
        vals = [s.mem[out.obj].cells.get(8 * i, (0, A.UNDEF))[1] for i in range(nout)]
        return vals, ret, self.where(it), it, s

    def guard(self, subject):
        return Guard(self, subject)

    def parallel(self, jobs, workers=8):
        """runs the jobs (callables adding obligations to this check) in forked processes"""
        jobs = list(jobs)
        workers = max(1, min(workers, len(jobs), os.cpu_count() or 1))
        if workers == 1 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j()
            return
        kids = []
        for w in range(workers):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    self.obs, self.files, self.functions, self.instructions, self.skipped, self.notes = [], {}, set(), 0, [], []
                    for j in jobs[w::workers]:
                        j()
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump((self.obs, self.files, self.functions, self.instructions, self.skipped, self.notes), f)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(rc)
            os.close(wr)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.ob("analysis", "worker", None, "a worker process failed")
                continue
            obs, files, fns, n, sk, notes = pickle.loads(data)
            self.obs += obs
            for f, ls in files.items():
                self.files.setdefault(f, set()).update(ls)
            self.functions.update(fns)
            self.instructions += n
            self.skipped += sk
            self.notes += notes

    # ---------------------------------------------------------------- obligations
    def ob(self, subject, rule, ok, detail="", where=()):
        """ok: True discharged, False violated, None undecided"""
        st = "ok" if ok else ("undecided" if ok is None else "violated")
        self.obs.append((subject, rule, st, detail, list(where)))
        return ok

    def equal(self, subject, rule, got, want, where=(), ranges=None, assume=None, tol=P.TOL, split=10, env=None):
        """obligation got == want for every value of the inputs"""
        ok, det = same(got, want, ranges, assume, tol, split, env)
        return self.ob(subject, rule, ok, det, where)

    def boolean(self, subject, rule, got, want, where=(), ranges=None, assume=None, env=None, n=400):
        ok, det = bsame(got, want, ranges, assume, env, n)
        return self.ob(subject, rule, ok, det, where)

    # ---------------------------------------------------------------- end
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.pid]

    def finish(self):
        viol = [o for o in self.obs if o[2] == "violated"]
        und = [o for o in self.obs if o[2] == "undecided"]
        known = self.known()
        seen = []
        new = []
        for o in viol:
            k = next((k for k in known if k["subject"] == o[0] and k["rule"] == o[1]), None)
            if k is not None:
                seen.append((k, o))
            else:
                new.append(o)
        files = {os.path.relpath(f, build.REPO): len(ls) for f, ls in sorted(self.files.items())}
        cov = {
            "obligations": len(self.obs),
            "discharged": sum(o[2] == "ok" for o in self.obs),
            "undecided": len(und),
            "known_findings": len(seen),
            "checker_cmd": f"python3 /verif/check.py {self.pid}",
            "trusted_base": self.trusted or ["clang 18 front end and -O1 lowering", "engine/absint.py transfer functions",
                                             "real arithmetic in place of IEEE rounding"],
            "rule": self.rule,
            "functions_analysed": len(self.functions),
            "ir_instructions_visited": self.instructions,
            "source_lines_analysed": files,
            "subjects": sorted({o[0] for o in self.obs})[:400],
            "explanation": self.rule,
            "samples": [{"subject": o[0], "rule": o[1], "status": o[2], "detail": o[3][:300], "where": o[4]} for o in
                        (viol + und + self.obs[:12])[:40]],
        }
        if self.skipped:
            cov["skipped"] = self.skipped
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL.get(self.pid, "proof"), "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1)
        for k, o in {(o[0], o[1]): (k, o) for k, o in seen}.values():
            print(f"KNOWN-FINDING: property={self.pid} {o[0]}: {o[1]}: {k.get('what', '')}")
        for o in und[:6]:
            print(f"UNDECIDED property={self.pid} {o[0]}: {o[1]}: {o[3][:200]}")
        print(f"{self.pid}: {cov['discharged']}/{cov['obligations']} obligations discharged, {len(und)} undecided, "
              f"{len(seen)} known, {len(new)} violated; {len(self.functions)} functions, {len(files)} source files, "
              f"{ev['wall_s']} s")
        if new:
            rp = f"{VERIF}/evidence/{self.pid}.violation.json"
            json.dump([{"subject": o[0], "rule": o[1], "detail": o[3], "where": o[4]} for o in new], open(rp, "w"), indent=1)
            for o in new[:6]:
                print(f"  {o[0]}: {o[1]}\n      {o[3][:260]}\n      at {', '.join(o[4]) or '?'}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if not self.obs or cov["discharged"] == 0:
            print(f"UNDECIDED property={self.pid}: nothing was decided")
        return 0


LEVEL = {}


def same(got, want, ranges=None, assume=None, tol=P.TOL, split=10, env=None):
    if not isinstance(got, P.Poly):
        if isinstance(got, P.BExpr):
            got = P.ite(got, P.ONE, P.ZERO)
        elif isinstance(got, (int, float)):
            got = P.K(got)
        else:
            return False, f"value is {got!r}, not a number determined by the inputs"
    if not isinstance(want, P.Poly):
        want = P.K(want)
    if unknown(got) or unknown(want) or havoc(got, want):
        return None, "not followed"
    d = got - want
    try:
        if P.is_zero(d, tol):
            return True, ""
    except (P.TooBig, RecursionError):
        pass
    sep = num.separate(got, want, ranges=ranges, assume=assume, env=env)
    if sep:
        pt, x, y = sep
        return False, f"got {x:.9g}, want {y:.9g} at {fmtpt(pt)}; got = {P.fmt(got, 8)[:300]}"
    # gated values: decide by cases on the conditions
    conds = list(P.conditions(d))
    if 0 < len(conds) <= split:
        if all_cases(d, conds, tol):
            return True, "by cases"
    sep = num.guided(got, want, ranges=ranges, assume=assume, env=env, tol=float(5 * tol)) if conds else None
    if sep:
        pt, x, y = sep
        return False, f"got {x:.12g}, want {y:.12g} at {fmtpt(pt)}; got = {P.fmt(got, 8)[:300]}"
    return None, "not shown equal: " + P.fmt(d, 6)[:300]


def all_cases(d, conds, tol):
    cs = list(P.conditions(d))
    if not cs:
        return P.is_zero(d, tol)
    c = cs[0]
    for v in (True, False):
        e = P.assume(d, {c: v})
        if not all_cases(e, cs[1:], tol):
            return False
    return True


def fmtpt(pt):
    return "{" + ", ".join(f"{k}={v:.6g}" if isinstance(v, (int, float)) else f"{k}={v}" for k, v in sorted(pt.items())[:24]) + "}"


def bsame(got, want, ranges=None, assume=None, env=None, n=400):
    """boolean formulas equal for every input (up to measure-zero boundaries handled by exact grid points in env)"""
    if isinstance(got, P.Poly):
        got = P.bnot(P.bcmp("eq", got))
    if not isinstance(got, P.BExpr):
        return False, f"value is {got!r}"
    if got is want:
        return True, ""
    if unknown(got) or havoc(got, want):
        return None, "not followed"
    sep = num.separate(got, want, n=n, ranges=ranges, assume=assume, env=env)
    if sep:
        pt, x, y = sep
        return False, f"answers {x} where {y} is required, at {fmtpt(pt)}; computed condition: {P.bfmt(got)[:400]}"
    if lin.equivalent(got, want, [assume] if assume is not None else []):
        return True, ""
    sep = num.guided(got, want, ranges=ranges, assume=assume, env=env)
    if sep:
        pt, x, y = sep
        return False, f"answers {x} where {y} is required, at {fmtpt(pt)}; computed condition: {P.bfmt(got)[:400]}"
    return None, "not shown equivalent: " + P.bfmt(got)[:300]


def run(pid, fn, rule, **kw):
    chk = Check(pid, rule, **kw)
    try:
        fn(chk)
    except build.CompileError as e:
        # the interface the witness instantiates has changed: nothing is claimed either way
        print(f"UNDECIDED property={pid}: the witness does not compile against this tree\n{e}")
        chk.ob("witness", "instantiates the interface under analysis", None, str(e)[:2000])
    except Exception:
        traceback.print_exc()
        chk.ob("analysis", "runs to its end", None, traceback.format_exc()[-600:])
    return chk.finish()
