"""Shared by the harnesses: constructors, reference evaluators, oracles."""
from symex.runner import Harness          # noqa
from symex.poly import Sym, SymBool       # noqa
import gpkit
from gpkit import Variable, VectorVariable, Monomial, Posynomial, Signomial, SignomialsEnabled


def X(name, *args, **kw):
    return Variable(name, *args, **kw)


def value(n, point):
    "reference evaluation of a nomial / hmap / number at {varkey: number}"
    hmap = getattr(n, "hmap", None)
    if hmap is None:
        if not hasattr(n, "items"):
            return n
        hmap = n
    tot = 0
    for exp, c in hmap.items():
        t = c
        for vk, e in exp.items():
            t = t*point[vk]**e
        tot = tot + t
    return tot


# factor to SI and dimension vector, written independently of gpkit and pint
UNIT_TABLE = {
    "meter": (1.0, {"L": 1}), "centimeter": (0.01, {"L": 1}), "kilometer": (1000.0, {"L": 1}),
    "foot": (0.3048, {"L": 1}), "inch": (0.0254, {"L": 1}),
    "second": (1.0, {"T": 1}), "minute": (60.0, {"T": 1}), "hour": (3600.0, {"T": 1}),
    "kilogram": (1.0, {"M": 1}), "gram": (0.001, {"M": 1}),
    "newton": (1.0, {"M": 1, "L": 1, "T": -2}), "joule": (1.0, {"M": 1, "L": 2, "T": -2}),
    "watt": (1.0, {"M": 1, "L": 2, "T": -3}), "millimeter": (1e-3, {"L": 1}), "megameter": (1e6, {"L": 1}),
}


def si(units):
    "(factor, dims) of a gpkit .units (Quantity or None), by our own table"
    if not units:
        return 1.0, {}
    fac, dims = getattr(units, "magnitude", 1), {}
    for name, p in dict(units.units._units).items():
        f, d = UNIT_TABLE[name]
        fac = fac*f**p
        for k, v in d.items():
            dims[k] = dims.get(k, 0) + v*p
    return fac, {k: v for k, v in dims.items() if v}


def sivalue(n, sipoint):
    """value of a nomial in SI: sipoint {varkey: SI value}"""
    fac, _ = si(n.units)
    point = {vk: v/si(vk.units)[0] for vk, v in sipoint.items()}
    return value(n, point)*fac


def canonical(ctx, n, tag):
    "every nomial: nonempty, no zero exponents, no zero terms (unless it is 0)"
    hmap = n.hmap
    ctx.check(len(hmap) >= 1, tag+": has at least one term")
    for exp, c in hmap.items():
        for vk, e in exp.items():
            ctx.check(e != 0, tag+": no zero exponent is stored")
        if len(hmap) > 1:
            ctx.check(c != 0, tag+": no zero term is stored")


def classof(ctx, n, tag):
    neg = False
    for c in n.hmap.values():
        if c <= 0:
            neg = True
    if neg:
        want = Signomial
    elif len(n.hmap) == 1:
        want = Monomial
    else:
        want = Posynomial
    ok = type(n) is want or (want is Monomial and isinstance(n, Monomial))
    ctx.check(ok, tag+": class reflects terms and signs")


def term(ctx, i, xs, vs, signed=True):
    "c*x**a*... with symbolic c and exponents, and its value"
    c = ctx.nonzero("c%d" % i) if signed else ctx.pos("c%d" % i)
    n, v = c, c
    for j, (x, vx) in enumerate(zip(xs, vs)):
        e = ctx.real("e%d_%d" % (i, j))
        n, v = n*x**e, v*vx**e
    return n, v


def setup(ctx, names):
    xs = [X(n) for n in names]
    vs = [ctx.pos(n) for n in names]
    return xs, vs, {x.key: v for x, v in zip(xs, vs)}


def hash_ok(ctx, n, tag):
    "stored hashes agree with the content (toggles cancel to the items)"
    for exp in list(n.hmap) + [n.hmap]:
        hv = getattr(exp, "hashvalue", None)
        toggles = getattr(hv, "toggles", None)
        if toggles is None:
            if ctx.concrete and hv is not None:
                fresh = type(exp)(exp)
                ctx.check(hash(fresh) == hash(exp), tag+": hash agrees with content")
            continue
        left = []
        for t in list(toggles)+[(k, v) for k, v in exp.items()]:
            for i, (k, v) in enumerate(left):
                if k is t[0] or k == t[0]:
                    d = Sym.coerce(v)._add(Sym.coerce(t[1]), -1)
                    if ctx.holds(d == 0):
                        left.pop(i)
                        break
            else:
                left.append(t)
        ctx.check(not left, tag+": hash agrees with content")


def same_terms(ctx, one, two, label):
    "the same terms, coefficients up to rounding"
    ctx.check(set(one.keys()) == set(two.keys()), label)
    for exp, c in one.items():
        if exp in two:
            ctx.eq(c, two[exp], label)
