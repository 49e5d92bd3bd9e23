"Signomial constraints are approximated conservatively and tightly"
import gpkit
from .lib import *
from gpkit.exceptions import PrimalInfeasible, InvalidGPConstraint
from gpkit.nomials.math import (SignomialInequality, SingleSignomialEquality,
                                PosynomialInequality, MonomialEquality)
from gpkit.constraints.sigeq import SignomialEquality

NOTE = ("An approximation's right side is shown to be a monomial with the value and the logarithmic "
        "gradient of the negative part at the point; that such a monomial is nowhere above a posynomial "
        "(convexity of log-sum-exp, weighted AM-GM) is the mathematical step outside the solver.")


def build(ctx, plt, pgt, way):
    "plt <= pgt"
    with SignomialsEnabled():
        return (plt <= pgt) if way else (pgt >= plt)


def same_nomial(ctx, n, terms, tag):
    "n is the sum of the (coefficient, exponents) terms, which are distinct"
    ctx.check(len(n.hmap) == len(terms), tag+": number of terms")
    for c, exps in terms:
        hits = [c2 for e2, c2 in n.hmap.items()
                if set(e2) == set(exps) and all(e2[k] == exps[k] for k in exps)]
        ctx.check(len(hits) == 1, tag+": has the term")
        if hits:
            ctx.eq(hits[0], c, tag+": the term's coefficient")


def tangent(ctx, mono, terms, point, keys, tag):
    "mono has the value and logarithmic gradient at point of the sum of terms"
    ctx.check(len(mono.hmap) == 1, tag+": is a monomial")
    vals = []
    for c, exps in terms:
        v = c
        for k, e in exps.items():
            v = v*point[k]**e
        vals.append((v, exps))
    tot = sum(v for v, _ in vals)
    ctx.eq(value(mono, point), tot, tag+": the value at the point")
    (exp, _), = mono.hmap.items()
    for k in keys:
        want = sum(v*exps[k] for v, exps in vals if k in exps)
        ctx.eq(exp.get(k, 0)*tot, want, tag+": the gradient at the point")
    for k in exp:
        ctx.check(k in keys, tag+": no other variables")


def shape(ctx, keys, n):
    "terms by shape number, symbolic coefficients and some symbolic exponents"
    x, y = keys
    c = [ctx.pos("c%d" % i) for i in range(4)]
    if n == 0:      # posy: 1 term; negy: 2
        return [(c[0], {x: 1})], [(c[1], {y: 1}), (c[2], {})]
    if n == 1:
        return [(c[0], {x: 2, y: -1})], [(c[1], {x: 1}), (c[2], {y: 1})]
    if n == 2:
        return [(c[0], {x: 1}), (c[3], {})], [(c[1], {x: 2}), (c[2], {y: 3, x: -1})]
    if n == 3:
        a = ctx.nonzero("a")
        ctx.assume(a != 1)
        return [(c[0], {y: 1})], [(c[1], {x: 1}), (c[2], {x: a})]
    if n == 4:
        return [(c[0], {x: 1}), (c[3], {y: 1})], [(c[1], {x: 1, y: 1})]
    # at some points its approximation is a constant, perhaps an infeasible one
    return [(c[0], {x: 0.5, y: 0.5})], [(c[1], {x: 1}), (c[2], {y: 1})]


def tosum(terms, vs):
    tot = 0
    for c, exps in terms:
        t = c
        for k, e in exps.items():
            t = t*vs[k]**e
        tot = tot + t
    return tot


def h_approx(ctx):
    "as_gpconstr at any point; variables missing from it count as 1"
    xs, vs, point = setup(ctx, "xy")
    kx, ky = keys = [x.key for x in xs]
    var = dict(zip(keys, xs))
    posy, negy = shape(ctx, keys, ctx.choice("shape", 6))
    with SignomialsEnabled():
        c = build(ctx, tosum(posy, var), tosum(negy, var), ctx.boolean("way"))
    if not isinstance(c, SignomialInequality):
        ctx.check(len(negy) == 1, "only a monomial bound makes it a posynomial constraint")
        return
    x0, full = {}, {}
    for k, n in zip(keys, "xy"):
        if ctx.boolean("has"+n):
            x0[k] = full[k] = ctx.pos("x0"+n)
        else:
            full[k] = 1
    if ctx.boolean("extra"):
        x0[X("other").key] = ctx.pos("other")
    c.as_gpconstr({k: ctx.pos("first"+k.name) for k in keys})     # leaves no trace
    g = c.as_gpconstr(x0)
    ctx.check(type(g) is PosynomialInequality, "a posynomial inequality")
    ctx.check(g.oper == "<=", "posynomial at most monomial")
    ctx.check(g.generated_by is c, "knows what it approximates")
    same_nomial(ctx, g.left, posy, "left side")
    tangent(ctx, g.right, negy, full, keys, "right side")
    if not ctx.concrete and set(x0) & set(full):
        pass  # the point's powers are beyond the solver
    elif len(g.unsubbed) == 1 and len(posy) == 1 and len(g.unsubbed[0].hmap) == 1:
        ctx.eq(value(g.unsubbed[0], full)*value(g.right, full), value(g.left, full),
               "normal form is the ratio")
    elif not g.unsubbed:
        ctx.le(value(g.left, full), 1.0011*value(g.right, full), "no normal form only when always true")
    same_nomial(ctx, c.unsubbed[0], posy + [(-cc, e) for cc, e in negy], "the constraint is unchanged")
    if ctx.concrete:
        for s in (0.4, 0.9, 1.6, 3.0):
            p = {k: v*s**(1 if i else -1) for i, (k, v) in enumerate(full.items())}
            ctx.le(value(g.right, p), tosum(negy, p), "never above the signomial's bound")


def h_equality(ctx):
    "posynomial == posynomial: both sides' tangents are equated"
    xs, vs, point = setup(ctx, "xy")
    keys = [x.key for x in xs]
    var = dict(zip(keys, xs))
    posy, negy = shape(ctx, keys, [0, 1, 2, 5][ctx.choice("shape", 4)])
    x0, full = {}, {}
    for k in keys:
        if ctx.boolean("has"+k.name):
            x0[k] = full[k] = ctx.pos("x0"+k.name)
        else:
            full[k] = 1
    with SignomialsEnabled():
        c, = SignomialEquality(tosum(posy, var), tosum(negy, var)).flat()
        ctx.check(type(c) is SingleSignomialEquality and c.oper == "=", "an equality")
        ctx.check(c.meq_bounded is not None, "bounds")
        try:
            c.as_hmapslt1({})
            ctx.check(False, "equality: never GP-compatible")
        except InvalidGPConstraint:
            ctx.check(True, "equality: never GP-compatible")
        g = c.as_gpconstr(x0)
    ctx.check(isinstance(g, MonomialEquality), "equality: a monomial equality")
    ctx.check(g.generated_by is c, "equality: knows what it approximates")
    tangent(ctx, g.left, posy, full, keys, "equality: left")
    tangent(ctx, g.right, negy, full, keys, "equality: right")


def h_scope(ctx):
    "signomial constraints exist only inside a signomials-enabled scope"
    x, y = X("x"), X("y")
    c0, c1 = ctx.pos("c0"), ctx.pos("c1")
    lhs, rhs = c0*x + y, c1*x*y + 1
    way = ctx.choice("way", 4)
    inside = ctx.boolean("inside")
    def make():
        if way == 0:
            return lhs <= rhs
        if way == 1:
            return lhs >= rhs
        if way == 2:
            return SignomialInequality(lhs, "<=", rhs)
        return SignomialEquality(lhs, rhs)
    if inside:
        with SignomialsEnabled():
            c = make()
        ctx.check(c is not None, "scope: allowed inside")
        ctx.check(not SignomialsEnabled, "scope: closed again")
        return
    try:
        make()
        ctx.check(False, "scope: refused outside")
    except TypeError:
        ctx.check(True, "scope: refused outside")


def substituted(ctx, con, lhs, rhs, subs, point, negs, tag, scale):
    """the normal form after substitution is  lhs <= rhs  exactly; refused if
    more than one term (of negs) remains on the greater side"""
    try:
        hms = con.as_hmapslt1(subs)
    except InvalidGPConstraint:
        ctx.check(negs is None or negs > 1, tag+": refused only if not GP-compatible")
        return None
    except (ValueError, PrimalInfeasible):
        ctx.check(lhs > rhs - (1e-9*scale if ctx.concrete else 0), tag+": infeasible only when impossible")
        return None
    if not hms:
        ctx.check(lhs <= rhs + (1e-9*scale if ctx.concrete else 0), tag+": disappears only when always true")
        return []
    ctx.check(len(hms) == 1, tag+": one normal form")
    for e, c in hms[0].items():
        ctx.check(c > 0 and len(e) > 0, tag+": positive, not constant")
    got = value(hms[0], point)
    if ctx.holds(lhs <= rhs):
        ctx.le(got, 1, tag+": admits every point")
    else:
        ctx.check(got > 1, tag+": admits no other point")
    return hms


def h_subs(ctx):
    "signomial inequalities made GP-compatible by substitution"
    xs, vs, point = setup(ctx, "xyz")
    x, y, z = xs
    vx, vy, vz = vs
    c0, c1, c2 = (ctx.pos("c%d" % i) for i in range(3))
    form = ctx.choice("form", 5)
    with SignomialsEnabled():
        con, lhs, rhs = [
            (lambda: c0*x + c1*y >= z, vz, c0*vx + c1*vy),
            (lambda: c0*x*z + c1*y*z >= c2*y + x, c2*vy + vx, c0*vx*vz + c1*vy*vz),
            (lambda: c0*x + z <= c1*x*y + c2*x, c0*vx + vz, c1*vx*vy + c2*vx),
            (lambda: c0*x*y + 1 <= c1*y + x*z, c0*vx*vy + 1, c1*vy + vx*vz),
            (lambda: c0*x - c1*y <= c2*z - x*y, c0*vx - c1*vy, c2*vz - vx*vy)][form]
        con = con()
    ctx.check(isinstance(con, SignomialInequality), "a signomial inequality")
    subs = {}
    if ctx.boolean("first"):        # earlier generations leave no trace
        try:
            con.as_hmapslt1({x.key: ctx.pos("otherx"), z.key: 2})
        except (ValueError, InvalidGPConstraint, PrimalInfeasible):
            pass
    for k, v in point.items():
        if ctx.boolean("sub"+k.name):
            subs[k] = v
    scale = 1 + sum((c0 + c1 + c2 + 1)*v*w for v in (1, vx, vy, vz) for w in (1, vx, vy, vz))
    # terms as dicts of unsubstituted exponents, merged where they coincide
    merged = []
    for exp, c in con.unsubbed[0].hmap.items():
        v, rest = c, {}
        for k, e in exp.items():
            if k in subs:
                v = v*subs[k]**e
            else:
                rest[k] = e
        for m in merged:
            if m[1] == rest:
                m[0] = m[0] + v
                break
        else:
            merged.append([v, rest])
    negs = 0
    for v, _ in merged:
        if ctx.holds(v < 0):
            negs += 1
    hms = substituted(ctx, con, lhs, rhs, subs, point, negs, "substituted", scale)
    if hms and negs == 1:
        ctx.check(hms[0].parent.parent is con, "substituted: belongs to its constraint")


def h_units(ctx):
    "signomial constraints between different units"
    x, y, z = X("x", "m"), X("y", "ft"), X("z", "cm")
    c0, c1 = ctx.pos("c0"), ctx.pos("c1")
    sv = {v.key: ctx.pos(v.key.name) for v in (x, y, z)}       # SI
    point = {k: v/si(k.units)[0] for k, v in sv.items()}
    vx, vy, vz = (sv[v.key] for v in (x, y, z))
    way = ctx.boolean("way")
    with SignomialsEnabled():
        con = (c0*x + c1*y >= z) if way else (z <= c0*x + c1*y)
    which = ctx.choice("sub", 4)
    if which < 2:
        v = (x, y)[which]
        subs = {v.key: point[v.key] if ctx.boolean("plain") else (sv[v.key]*100)*gpkit.ureg.cm}
        if ctx.boolean("z too"):
            subs[z.key] = point[z.key]
        substituted(ctx, con, vz, c0*vx + c1*vy, subs, point, None, "units",
                    vz + c0*vx + c1*vy)
        return
    x0 = point if which == 2 else {x.key: point[x.key]}
    g = con.as_gpconstr(x0)
    full = dict(point)
    if which == 3:
        full[y.key] = 1
    fy = full[y.key]*0.3048
    tot = c0*vx + c1*fy
    fac, dims = si(g.right.units)
    ctx.check(dims == {"L": 1}, "units: kept")
    ctx.eq(value(g.right, full)*fac, tot, "units: value at the point")
    (exp, _), = g.right.hmap.items()
    ctx.eq(exp.get(x.key, 0)*tot, c0*vx, "units: gradient")
    ctx.eq(exp.get(y.key, 0)*tot, c1*fy, "units: gradient")
    ctx.eq(sivalue(g.left, {z.key: vz}), vz, "units: left side")


HARNESSES = [
    Harness("approx", h_approx, "6 term shapes (1-2 positive, 1-2 negative terms, one with a symbolic "
            "exponent), any point in 2 variables, any of them missing"),
    Harness("equality", h_equality, "4 term shapes, any point, any variable missing"),
    Harness("scope", h_scope, "4 ways to make one, inside and outside"),
    Harness("subs", h_subs, "5 term shapes in 3 variables, every subset substituted, with or without an "
            "earlier generation"),
    Harness("units", h_units, "m, ft and cm; substitution of numbers or quantities, any point"),
]
