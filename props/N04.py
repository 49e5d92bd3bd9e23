"Differentiation returns the partial derivative"
from .lib import *


def dref(terms, vals, j):
    tot = 0
    for c, es in terms:
        t = c*es[j]
        for i, (e, v) in enumerate(zip(es, vals)):
            t = t*v**(e-1 if i == j else e)
        tot = tot + t
    return tot


def ref(terms, vals):
    tot = 0
    for c, es in terms:
        t = c
        for e, v in zip(es, vals):
            t = t*v**e
        tot = tot + t
    return tot


def build(ctx, nt, nv, signed):
    xs = [X(n) for n in "xyz"[:nv]]
    P, terms = 0, []
    for i in range(nt):
        c = ctx.nonzero("c%d" % i) if signed else ctx.pos("c%d" % i)
        es = [ctx.real("e%d%d" % (i, j)) for j in range(nv)]
        t = c
        for x, e in zip(xs, es):
            t = t*x**e
        P = P + t
        terms.append((c, es))
    return xs, P, terms


def diffs(nt, nv, signed):
    def fn(ctx):
        with SignomialsEnabled():
            xs, P, terms = build(ctx, nt, nv, signed)
            vals = [ctx.pos(n) for n in "xyz"[:nv]]
            pt = {x.key: v for x, v in zip(xs, vals)}
            j = ctx.choice("wrt", nv)
            D = P.diff(xs[j])
            ctx.eq(value(D, pt), dref(terms, vals, j), "partial derivative")
            ctx.eq(value(P, pt), ref(terms, vals), "nomial unchanged")
            canonical(ctx, D, "derivative")
            classof(ctx, D, "derivative")
            hash_ok(ctx, D, "derivative")
            hash_ok(ctx, P, "original")
            S = D + P
            ctx.eq(value(S, pt), dref(terms, vals, j)+ref(terms, vals),
                   "derivative combines with its nomial")
            D2 = P.diff(xs[j].key)
            ctx.eq(value(D2, pt), dref(terms, vals, j), "by key, a second time")
    return fn


def second(ctx):
    with SignomialsEnabled():
        xs, P, terms = build(ctx, 1, 2, True)
        vals = [ctx.pos("x"), ctx.pos("y")]
        pt = {x.key: v for x, v in zip(xs, vals)}
        (c, (a, b)), = terms
        x, y = vals
        D = P.diff(xs[0]).diff(xs[0])
        ctx.eq(value(D, pt), c*a*(a-1)*x**(a-2)*y**b, "second derivative")
        M1, M2 = P.diff(xs[0]).diff(xs[1]), P.diff(xs[1]).diff(xs[0])
        ctx.eq(value(M1, pt), c*a*b*x**(a-1)*y**(b-1), "mixed derivative")
        same_terms(ctx, M1.hmap, M2.hmap, "mixed derivatives agree")
        ctx.check(len(D.hmap) == 1, "one term")
        hash_ok(ctx, D, "second derivative")
        hash_ok(ctx, M1, "mixed derivative")
        lone = P.diff(xs[0])*xs[0]
        ctx.eq(value(lone, pt), c*a*x**a*y**b, "times variable")
        if not ctx.holds(a == 0) and not ctx.holds(b == 0):
            ctx.check(lone.hmap.keys() == P.hmap.keys(), "same exponents as the original")
            for e1, e2 in zip(lone.hmap, P.hmap):
                ctx.check(hash(e1) == hash(e2), "same exponent hash as the original")


def product_rule(ctx):
    with SignomialsEnabled():
        xs = [X("x"), X("y")]
        vals = [ctx.pos("x"), ctx.pos("y")]
        pt = {x.key: v for x, v in zip(xs, vals)}
        a, b, c, d = (ctx.real(n) for n in "abcd")
        k = ctx.nonzero("k")
        A, B = xs[0]**a + k*xs[1]**b, xs[0]**c*xs[1]**d
        L = (A*B).diff(xs[0])
        R = A.diff(xs[0])*B + A*B.diff(xs[0])
        ctx.eq(value(L, pt), value(R, pt), "product rule")


def units(ctx):
    x, y = X("x", "ft"), X("y", "min")
    a, b, c = ctx.real("a"), ctx.real("b"), ctx.pos("c")
    vx, vy = ctx.pos("x"), ctx.pos("y")
    ctx.assume(a > 0)
    P = c*(x/gpkit.units("ft"))**a*y + (x/gpkit.units("ft"))**b*y
    with SignomialsEnabled():
        D = P.diff(x)
    fac, dims = si(D.units)
    ctx.eq(fac, 60.0/0.3048, "units factor is nomial over variable")
    ctx.check(dims == {"T": 1, "L": -1}, "units are nomial over variable")
    pt = {x.key: vx, y.key: vy}
    ctx.eq(value(D, pt), (c*a*vx**(a-1) + b*vx**(b-1))*vy, "derivative in mixed units")
    E = P.diff(y)
    ctx.eq(value(E, pt)*si(E.units)[0], c*vx**a+vx**b, "dimensionless derivative")
    ctx.check(si(E.units)[1] == {}, "dimensionless derivative has no dimensions")


def ratios(ctx):
    "nomials without units of variables with units, and the reverse"
    x, y, w = X("x", "ft"), X("y", "cm"), X("w")
    vx, vy, vw = ctx.pos("x"), ctx.pos("y"), ctx.pos("w")
    a, c = ctx.real("a"), ctx.nonzero("c")
    with SignomialsEnabled():
        X_, Y_ = vx*0.3048, vy*0.01           # SI
        P, value_, parts = [
            (lambda: c*x/gpkit.units("m") + w**a, c*X_ + vw**a, (c, 0, a*vw**(a-1))),
            (lambda: c*x/y + w, c*X_/Y_ + vw, (c/Y_, -c*X_/Y_**2, 1)),
            (lambda: c*w**a*x + y, c*vw**a*X_ + Y_, (c*vw**a, 1, c*a*vw**(a-1)*X_)),
            (lambda: c*(x/gpkit.units("inch"))**2, c*X_**2/0.0254**2, (2*c*X_/0.0254**2, 0, 0)),
        ][ctx.choice("form", 4)]
        P = P()
        sipt = {x.key: X_, y.key: Y_, w.key: vw}
        dims = si(P.units)[1]
        for var, want, dim in zip((x, y, w), parts, ("L", "L", None)):
            D = P.diff(var)
            ctx.eq(sivalue(D, sipt), want, "derivative, physically")
            if var.key in P.vks:
                d = dict(dims)
                if dim:
                    d[dim] = d.get(dim, 0)-1
                d = {k: v for k, v in d.items() if v}
                ctx.check(si(D.units)[1] == d, "derivative's units")
            S = D*var + P
            ctx.eq(sivalue(S, sipt), want*sipt[var.key] + value_, "derivative times its variable, added")
        ctx.eq(sivalue(P, sipt), value_, "nomial unchanged")


def absent(ctx):
    x, y, z = X("x"), X("y"), X("z")
    a, c = ctx.real("a"), ctx.pos("c")
    vx = ctx.pos("x")
    P = c*x**a + y
    with SignomialsEnabled():
        D = P.diff(z)
        ctx.check(D == 0, "derivative w.r.t. an absent variable is zero")
        S = D + P
        ctx.check(isinstance(S, Posynomial), "zero derivative adds nothing")
        ctx.eq(value(S, {x.key: vx, y.key: 2.0}), c*vx**a+2.0, "zero derivative adds nothing, value")
        C = P.sub({x: vx, y: 3.0}).diff(x)
        ctx.check(C == 0, "derivative of a constant is zero")


HARNESSES = [
    Harness("diff_2_2", diffs(2, 2, True), "2 terms, 2 variables, any signs"),
    Harness("diff_3_1", diffs(3, 1, False), "3 terms, 1 variable"),
    Harness("diff_3_2", diffs(3, 2, True), "3 terms, 2 variables, any signs", tier="thorough", max_paths=60000),
    Harness("second", second, "1 term, 2 variables, twice"),
    Harness("product_rule", product_rule, "2 terms times 1"),
    Harness("units", units, "2 terms in ft and min"),
    Harness("ratios", ratios, "4 forms in ft, cm and none"),
    Harness("absent", absent, "2 terms"),
]
