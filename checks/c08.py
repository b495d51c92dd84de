"""C08: containment of a local point."""
from engine import elements as EL, lin, num, poly as P

BODY = '''
extern "C" bool w_contains(const double * n, const double * xi, const double * eps, double *) {
    const E e = MAKE(n); return e.contains_local(local<E>(xi), *eps);
}
extern "C" bool w_contains_default(const double * n, const double * xi, double *) {
    const E e = MAKE(n); return e.contains_local(local<E>(xi));
}
'''


def distances(shape, xs):
    """affine functions that are >= 0 exactly on the reference element"""
    if shape in ("triangle", "tetra"):
        return list(xs) + [P.ONE - sum(xs, P.ZERO)]
    r = []
    for x in xs:
        r += [P.ONE - x, P.ONE + x]
    return r


def ge(p):
    return P.bcmp("le", -p)


def run(chk):
    el = EL.Elements(chk, lambda n, i: BODY, tag="c08_")
    for n, e in el.errors().items():
        raise e
    for n in el.names():
        ty, shape, order, dim, rect = EL.ELEMENTS[n]
        c = EL.CDIM[shape]
        xs = EL.xi_vars(c)
        eps = P.var("eps[0]")
        ds = distances(shape, xs)
        for fn, ins, e in (("w_contains", ["n", "xi", "eps"], eps), ("w_contains_default", ["n", "xi"], P.K(P.rat_of_float(1e-10)))):
            _, r, it = el.run(n, fn, ins)
            w = EL.src(n, chk, it)
            if isinstance(r, P.Poly):
                r = P.bnot(P.bcmp("eq", r))
            if not isinstance(r, P.BExpr):
                chk.ob(n, fn, None, repr(r), w)
                continue
            hyp = [P.bcmp("lt", -e)] if e is eps else []
            inside = P.band(*[ge(d) for d in ds])
            # the default tolerance 1e-10 is added to 1 in floating point: allow its rounding
            k1, k2 = (1, 1) if e is eps else (P.Fraction(1000001, 1000000), P.Fraction(999999, 1000000))
            within = P.band(*[ge(d + e.scale(k1)) for d in ds])
            within_strict = P.band(*[P.bcmp("lt", -(d + e.scale(k2))) for d in ds])
            tag = "default tolerance" if e is not eps else "any tolerance eps > 0"
            decide(chk, n, f"{tag}: every point of the closed element is inside", r, inside, hyp, w)
            decide(chk, n, f"{tag}: every point less than eps outside each face is inside", r, within_strict, hyp, w)
            decide(chk, n, f"{tag}: a point more than eps outside a face is outside", within, r, hyp, w)


def decide(chk, n, rule, concl, prem, hyp, w):
    f = P.bor(P.bnot(prem), concl)
    try:
        if lin.valid(f, hyp):
            chk.ob(n, rule, True, "", w)
            return
    except (lin.Blowup, P.TooBig):
        pass

    def env(i):
        import random
        r = random.Random(i)
        e = r.choice([1e-10, 1e-6, 0.01, 0.3])
        d = {"eps[0]": e}
        base = [r.choice([-1, 1, 0, 0.5, 0.2, -0.4]) + r.choice([0, 0, 0, e / 2, -e / 2, 2 * e, -2 * e, 0.1, -0.1]) for _ in range(3)]
        for k in range(3):
            d[f"xi[{k}]"] = base[k]
        return d
    sep = num.separate(P.bnot(P.band(f, *[])), P.FALSE, n=3000, env=env, assume=P.band(*hyp) if hyp else None)
    if sep:
        from engine.check import fmtpt
        chk.ob(n, rule, False, f"fails at {fmtpt(sep[0])}", w)
    else:
        chk.ob(n, rule, None, "not shown", w)


RULE = ("the returned truth value as a boolean formula of the local point and the tolerance; the three inclusions between "
        "{closed reference element}, {answer} and {element grown by eps} are polyhedral entailments")
