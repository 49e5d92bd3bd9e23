"Monomial approximations are tangent at their point"
from .lib import *
from gpkit.keydict import KeyDict


def approx(nt, nv, form="var"):
    def fn(ctx):
        xs = [X(n) for n in "xyz"[:nv]]
        x0 = [ctx.pos("x0_%d" % j) for j in range(nv)]
        terms, P = [], 0
        for i in range(nt):
            c = ctx.pos("c%d" % i)
            es = [ctx.real("e%d%d" % (i, j)) for j in range(nv)]
            t = c
            for x, e in zip(xs, es):
                t = t*x**e
            P = P + t
            terms.append((c, es))
        tv = []
        for c, es in terms:
            t = c
            for v, e in zip(x0, es):
                t = t*v**e
            tv.append(t)
        tot = sum(tv)
        keys = {"var": xs, "key": [x.key for x in xs], "name": [x.key.name for x in xs]}[form]
        at = dict(zip(keys, x0))
        M = P.mono_lower_bound(at) if ctx.boolean("lower") else P.mono_approximation(at)
        ctx.check(isinstance(M, Monomial), "result is a monomial")
        pt = {x.key: v for x, v in zip(xs, x0)}
        ctx.eq(value(M, pt), tot, "same value at the point")
        for j, x in enumerate(xs):
            grad = sum(t*es[j] for t, (c, es) in zip(tv, terms))
            ctx.eq(M.exp.get(x.key, 0)*tot, grad, "same logarithmic gradient at the point")
        ctx.eq(value(P, pt), tot, "posynomial unchanged")
        if nt == 1:
            same_terms(ctx, M.hmap, P.hmap, "a monomial is its own approximation")
        if ctx.concrete:
            for s in (0.3, 0.8, 1.7, 4.0):
                p2 = {x.key: v*s**(1 if j % 2 else -1) for j, (x, v) in enumerate(zip(xs, x0))}
                ctx.le(value(M, p2), value(P, p2), "never above the posynomial")
    return fn


def missing(ctx):
    x, y = X("x"), X("y")
    a, c, v = ctx.real("a"), ctx.pos("c"), ctx.pos("v")
    ctx.assume(a != 0)
    P = c*x**a + y
    if ctx.boolean("constant"):
        P = P + ctx.pos("k")
    try:
        P.mono_approximation({x: v})
        ctx.check(False, "missing variables are rejected")
    except ValueError:
        ctx.check(True, "missing variables are rejected")
    M = c*x**a
    ctx.check(M.mono_approximation({}).hmap == M.hmap, "a monomial needs no point")


def units(ctx):
    x, y = X("x", "m"), X("y", "ft")
    c, a, b = ctx.pos("c"), ctx.pos("a"), ctx.pos("b")
    P = c*x + y**2/x
    unit, fac = (("cm", 0.01), ("km", 1000.0))[ctx.choice("u", 2)]
    M = P.mono_lower_bound(KeyDict({x: a*gpkit.ureg(unit), y: b}))
    pt = {x.key: a*fac, y.key: b}
    f1, d1 = si(M.units)
    f2, d2 = si(P.units)
    ctx.check(d1 == {"L": 1} and d2 == d1, "units kept")
    X1, Y1 = a*fac, b*0.3048
    want = c*X1 + Y1**2/X1
    ctx.eq(value(M, pt)*f1, want, "same value at a united point")
    ctx.eq(M.exp.get(x.key, 0)*want, c*X1 - Y1**2/X1, "gradient at a united point")
    ctx.eq(M.exp.get(y.key, 0)*want, 2*Y1**2/X1, "gradient at a united point")


def pair(ctx):
    "two approximations of one posynomial at different points are independent"
    x = X("x")
    P = ctx.pos("c")*x**2 + 3*x**ctx.real("e")
    a, b = ctx.pos("a"), ctx.pos("b")
    va, vb = value(P, {x.key: a}), value(P, {x.key: b})
    M, N = P.mono_lower_bound({x: a}), P.mono_lower_bound({x: b})
    ctx.eq(value(M, {x.key: a}), va, "first point")
    ctx.eq(value(N, {x.key: b}), vb, "second point")
    K = P.mono_lower_bound({x: a})
    ctx.eq(value(K, {x.key: a}), va, "first point again")


HARNESSES = [
    Harness("tangent_1_2", approx(1, 2), "1 term, 2 variables"),
    Harness("tangent_2_1", approx(2, 1), "2 terms, 1 variable"),
    Harness("tangent_2_2", approx(2, 2, "key"), "2 terms, 2 variables"),
    Harness("tangent_2_2n", approx(2, 2, "name"), "2 terms, 2 variables, by name"),
    Harness("tangent_3_1", approx(3, 1), "3 terms, 1 variable"),
    Harness("tangent_3_2", approx(3, 2), "3 terms, 2 variables", tier="thorough", max_paths=30000),
    Harness("missing", missing, "2 terms"),
    Harness("units", units, "2 terms in m and ft"),
    Harness("pair", pair, "2 terms, 2 points"),
]
