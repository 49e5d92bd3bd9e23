"Substitution commutes with evaluation"
from .lib import *


def build(ctx, nterms, nvars, signed, fixed_exps=None):
    xs = [X(n) for n in "xyz"[:nvars]]
    with SignomialsEnabled():
        terms = []
        P = 0
        for i in range(nterms):
            c = ctx.nonzero("c%d" % i) if signed else ctx.pos("c%d" % i)
            es = [fixed_exps[i][j] if fixed_exps else ctx.real("e%d%d" % (i, j))
                  for j in range(nvars)]
            t = c
            for x, e in zip(xs, es):
                t = t*x**e
            P = P + t
            terms.append((c, es))
    return xs, P, terms


def ref(terms, vals):
    tot = 0
    for c, es in terms:
        t = c
        for e, v in zip(es, vals):
            t = t*v**e
        tot = tot + t
    return tot


def subbed(nterms, nvars, signed, forms=("var",)):
    def fn(ctx):
        xs, P, terms = build(ctx, nterms, nvars, signed)
        vals = [ctx.pos("v%d" % j) for j in range(nvars)]
        mask = ctx.choice("mask", 2**nvars)
        form = forms[ctx.choice("form", len(forms))]
        before = dict(P.hmap)
        subs = {}
        for j, x in enumerate(xs):
            if mask >> j & 1:
                key = {"var": x, "key": x.key, "name": x.key.name}[form]
                subs[key] = vals[j]
        Q = P.sub(subs, require_positive=False)
        left = {x.key: v for x, v in zip(xs, vals)}
        for j, x in enumerate(xs):
            if mask >> j & 1:
                ctx.check(x.key not in Q.vks, "substituted variables are gone")
        ctx.eq(value(Q, left), ref(terms, vals), "value after substitution")
        ctx.eq(value(P, left), ref(terms, vals), "original unchanged")
        ctx.check(len(P.hmap) == len(before), "original keeps its terms")
        hash_ok(ctx, Q, "substituted")
        hash_ok(ctx, P, "original")
        canonical(ctx, Q, "substituted")
    return fn


def zeros_and_negatives(ctx):
    "zero and negative values, integer exponents 0..3"
    exps = [(1, 0, 1), (2, 1, 0), (0, 1, 1)]
    xs, P, terms = build(ctx, 3, 3, True, exps)
    vals = [ctx.signed("v0"), ctx.signed("v1"), ctx.pos("v2")]
    left = {xs[0].key: vals[0], xs[1].key: vals[1], xs[2].key: vals[2]}
    mask = ctx.choice("mask", 4)
    subs = {x: v for j, (x, v) in enumerate(zip(xs, vals)) if mask >> j & 1}
    Q = P.sub(subs, require_positive=False)
    ctx.eq(value(Q, left), ref(terms, vals), "value after zero/negative substitution")
    ctx.eq(value(P, left), ref(terms, vals), "original unchanged")
    hash_ok(ctx, Q, "substituted")
    ctx.check(len(Q.hmap) >= 1, "never an empty nomial")


def collide(ctx):
    "terms that merge after substitution, in every order of cancellation"
    x, y, z = X("x"), X("y"), X("z")
    with SignomialsEnabled():
        c = [ctx.nonzero("c%d" % i) for i in range(4)]
        e, f = ctx.real("e"), ctx.real("f")
        P = c[0]*z*x**e + c[1]*z*y**f + c[2]*z + c[3]*z*x*y
    vx, vy, vz = ctx.pos("vx"), ctx.pos("vy"), ctx.pos("vz")
    Q = P.sub({x: vx, y: vy}, require_positive=False)
    want = c[0]*vz*vx**e + c[1]*vz*vy**f + c[2]*vz + c[3]*vz*vx*vy
    ctx.eq(value(Q, {z.key: vz}), want, "merged value")
    ctx.check(len(Q.hmap) == 1, "merged terms are one term")
    hash_ok(ctx, Q, "merged")


def stepwise(ctx):
    "substituting one after the other equals substituting together"
    xs, P, terms = build(ctx, 2, 2, True)
    vals = [ctx.pos("v%d" % j) for j in range(2)]
    Q = P.sub({xs[0]: vals[0]}, require_positive=False)
    R = Q.sub({xs[1]: vals[1]}, require_positive=False)
    S = P.sub(dict(zip(xs, vals)), require_positive=False)
    w = ref(terms, vals)
    ctx.eq(value(R, {}), w, "two steps")
    ctx.eq(value(S, {}), w, "one step")
    S2 = P.sub(dict(zip(xs, vals)), require_positive=False)
    ctx.eq(value(S2, {}), w, "repeating gives the same")
    ctx.eq(value(Q, {xs[1].key: vals[1]}), w, "intermediate unchanged")


def irrelevant(ctx):
    "extra keys are ignored; an empty substitution is the identity"
    xs, P, terms = build(ctx, 2, 2, False)
    w = X("w")
    vals = [ctx.pos("v0"), ctx.pos("v1")]
    pt = {xs[0].key: vals[0], xs[1].key: vals[1]}
    for subs in ({}, {w: ctx.pos("vw")}, {"nosuchname": 3.0}):
        Q = P.sub(subs)
        ctx.eq(value(Q, pt), ref(terms, vals), "identity substitution")
        ctx.eq(value(P, pt), ref(terms, vals), "original unchanged")


def quantities(ctx):
    "united values and constant nomials are converted to the variable's units"
    x, y = X("x", "m"), X("y", "s")
    c, e, v, vy = ctx.pos("c"), ctx.real("e"), ctx.pos("v"), ctx.pos("vy")
    ctx.assume(e != 0)
    P = c*x**e*y + c*2*x**e*y
    unit, fac = [("cm", 0.01), ("ft", 0.3048), ("m", 1.0), ("km", 1000.0)][ctx.choice("u", 4)]
    form = ctx.choice("form", 3)
    if form == 0:
        val = v*gpkit.ureg(unit)
    elif form == 1:
        val = v*gpkit.units(unit)
    else:
        val = (v*fac)
    Q = P.sub({x: val})
    ctx.eq(value(Q, {y.key: vy}), 3*c*(v*fac)**e*vy, "converted value")
    try:
        P.sub({x: v*gpkit.ureg("kg")})
        ctx.check(False, "wrong units are rejected")
    except gpkit.DimensionalityError:
        ctx.check(True, "wrong units are rejected")
    try:
        P.sub({x: y})
        ctx.check(False, "nomials with variables are rejected")
    except ValueError:
        ctx.check(True, "nomials with variables are rejected")


def fractions(nterms, nvars):
    "the term map after substitution gives every original term's share"
    def fn(ctx):
        xs, P, terms = build(ctx, nterms, nvars, False)
        orig = list(P.hmap.items())
        vals = [ctx.pos("v%d" % j) for j in range(nvars)]
        mask = ctx.choice("mask", 2**nvars)
        fixed = {x.key: v for j, (x, v) in enumerate(zip(xs, vals)) if mask >> j & 1}
        hm = P.hmap.sub(fixed, P.vks, parsedsubs=True)
        pmap = hm.mmap(P.hmap)
        ctx.check(len(pmap) == len(hm), "one share list per surviving term")
        seen = {}
        for (exp, c), shares in zip(hm.items(), pmap):
            tot = 0
            for idx, frac in shares.items():
                ctx.check(idx not in seen, "each original term is counted once")
                seen[idx] = True
                oexp, oc = orig[idx]
                rest = {k: e for k, e in oexp.items() if k not in fixed}
                ctx.check(set(rest) == set(exp), "shares go to the term with the same variables")
                for k in rest:
                    ctx.eq(rest[k], exp.get(k, 0), "shares go to the term with the same exponents")
                w = oc
                for k, v in fixed.items():
                    if k in oexp:
                        w = w*v**oexp[k]
                ctx.eq(frac*c, w, "a share is the original term's part of the merged term")
                tot = tot + frac
            ctx.eq(tot, 1, "shares of a term sum to one")
        ctx.check(len(seen) == len(orig), "every original term is in exactly one share")
    return fn


def vectors(ctx):
    "vector variables by vector, by element and by name"
    v = VectorVariable(2, "v")
    y = X("y")
    a, b, vy = ctx.pos("a"), ctx.pos("b"), ctx.pos("vy")
    e, f = ctx.real("e"), ctx.real("f")
    P = v[0]**e*y + v[1]**f*y
    form = ctx.choice("form", 4)
    import numpy as np
    arr = [a, b]
    if form == 0:
        subs = {v: arr}
    elif form == 1:
        subs = {v[0]: a, v[1]: b}
    elif form == 2:
        subs = {"v": arr}
    else:
        subs = {v.key: arr}
    Q = P.sub(subs)
    ctx.eq(value(Q, {y.key: vy}), a**e*vy + b**f*vy, "vector substitution")


HARNESSES = [
    Harness("sub_2_2", subbed(2, 2, True, ("var", "key", "name")), "2 terms, 2 variables, any signs, 3 key forms",
            max_paths=20000),
    Harness("sub_3_1", subbed(3, 1, False), "3 terms, 1 variable"),
    Harness("sub_3_2", subbed(3, 2, False), "3 terms, 2 variables", tier="thorough", max_paths=60000),
    Harness("sub_3_2_sig", subbed(3, 2, True), "3 terms, 2 variables, any signs", tier="thorough", max_paths=60000),
    Harness("zero_negative", zeros_and_negatives, "3 terms, 3 variables, values of any sign"),
    Harness("collide", collide, "4 terms merging into one, any signs"),
    Harness("stepwise", stepwise, "2 terms, 2 variables, any signs"),
    Harness("irrelevant", irrelevant, "2 terms, 2 variables"),
    Harness("quantities", quantities, "4 length units, 3 value forms"),
    Harness("shares_3_1", fractions(3, 1), "3 terms, 1 variable"),
    Harness("shares_2_2", fractions(2, 2), "2 terms, 2 variables"),
    Harness("shares_3_2", fractions(3, 2), "3 terms, 2 variables", tier="thorough", max_paths=60000),
    Harness("vectors", vectors, "2-element vector, 4 key forms"),
]
