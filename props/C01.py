"Posynomial constraints compile to equivalent normal forms"
import gpkit
from .lib import *
from gpkit.exceptions import PrimalInfeasible, InvalidGPConstraint
from gpkit.nomials.math import PosynomialInequality, MonomialEquality

TOL = 1e-3     # the documented feasibility tolerance of constant constraints


def normal(make, subs):
    "[hmaps] or the name of the error"
    try:
        return [hm for hm in make().as_hmapslt1(subs)]
    except PrimalInfeasible:
        return "infeasible"
    except InvalidGPConstraint:
        return "signomial"


def equivalent(ctx, out, lhs, rhs, point, tag, strict=True):
    "the conjunction of the normal forms is  lhs <= rhs"
    if out == "infeasible":
        ctx.check(lhs > rhs, tag+": reported infeasible only when impossible")
        return
    ctx.check(out != "signomial", tag+": stays a posynomial constraint")
    if out == "signomial":
        return
    for hm in out:
        for exp, c in hm.items():
            ctx.check(c > 0, tag+": positive terms")
            ctx.check(len(exp) > 0, tag+": no constant left on the left")
    if not out:
        ctx.check(lhs <= rhs*(1+2*TOL), tag+": disappears only when always true")
        return
    ctx.check(len(out) == 1, tag+": one normal form")
    got = value(out[0], point)
    if ctx.holds(lhs <= rhs):
        ctx.le(got, 1, tag+": admits every point of the constraint")
    else:
        ctx.check(got > 1, tag+": admits no other point")


def choose_subs(ctx, xs, vs, tag="sub"):
    return {x.key: v for i, (x, v) in enumerate(zip(xs, vs)) if ctx.boolean("%s%d" % (tag, i))}


def le(ctx, p, m):
    "p <= m, written either way"
    return (lambda: p <= m) if ctx.boolean("flip") else (lambda: m >= p)


def nothing_left(ctx, out, subs, xs, tag):
    if len(subs) == len(xs) and not isinstance(out, str):
        ctx.check(not out, tag+": nothing is left once everything is substituted")


def h_symexp(ctx):
    "two terms with arbitrary exponents in two variables against one in one"
    xs, vs, point = setup(ctx, "xy")
    p = pv = 0
    for i in range(2):
        t, tv = term(ctx, i, xs[:1] if i else xs, vs[:1] if i else vs, signed=False)
        p, pv = p + t, pv + tv
    e = ctx.real("em")
    cm = ctx.pos("cm")
    m, mv = cm*xs[1]**e, cm*vs[1]**e
    subs = choose_subs(ctx, xs, vs)
    make = le(ctx, p, m)
    try:
        c = make()
    except PrimalInfeasible:
        ctx.check(pv > mv, "infeasible at construction only when impossible")
        return
    out = normal(lambda: c, subs)
    equivalent(ctx, out, pv, mv, point, "two terms")
    nothing_left(ctx, out, subs, xs, "two terms")


EXPS = [(0, 0), (1, 0), (0, 1), (1, 1), (2, -1), (-1, 0)]
MEXPS = [(0, 0), (0, -1), (1, 0), (-1, 1)]


def poly_of(ctx, xs, vs, n, exps=EXPS, tag="t", chain=True):
    "sum of n terms with exponents from the list, in any order"
    p = pv = 0
    for i in range(n):
        ea, eb = exps[ctx.choice("%s%d" % (tag, i), len(exps))]
        c = ctx.pos("%sc%d" % (tag, i))
        p = p + c*xs[0]**ea*xs[1]**eb
        pv = pv + c*vs[0]**ea*vs[1]**eb
    return p, pv


def h_terms(ctx, n=2, exps=EXPS):
    "n terms with small exponents (shifts that land on each other) against one"
    xs, vs, point = setup(ctx, "xy")
    p, pv = poly_of(ctx, xs, vs, n, exps)
    ea, eb = MEXPS[ctx.choice("m", len(MEXPS))]
    cm = ctx.pos("cm")
    m, mv = cm*xs[0]**ea*xs[1]**eb, cm*vs[0]**ea*vs[1]**eb
    subs = choose_subs(ctx, xs, vs)
    make = lambda: p <= m
    try:
        c = make()
    except PrimalInfeasible:
        ctx.check(pv > mv, "infeasible at construction only when impossible")
        return
    except TypeError:
        ctx.check(not hasattr(p, "hmap"), "comparable")
        return
    if not isinstance(c, PosynomialInequality):
        ctx.check(not hasattr(p, "hmap") and not hasattr(m, "hmap"), "a constraint is made")
        return
    out = normal(lambda: c, subs)
    equivalent(ctx, out, pv, mv, point, "terms")
    nothing_left(ctx, out, subs, xs, "terms")


def h_three(ctx):
    h_terms(ctx, 3, [(0, 0), (1, 0), (1, 1), (0, 1)])


def h_history(ctx):
    "earlier generations, with other substitutions, leave no trace"
    xs, vs, point = setup(ctx, "xy")
    cs = [ctx.pos("c%d" % i) for i in range(3)]
    x, y = xs
    kind = ctx.choice("kind", 4)
    def make():
        if kind == 0:
            return cs[0]*x*y + cs[1]*y <= cs[2]
        if kind == 1:
            return cs[0]*x/y + cs[1] <= cs[2]*x
        if kind == 2:
            return cs[2]*y**2 >= cs[0]*x*y + cs[1]*y
        return cs[0]*x == cs[2]*y
    other = [ctx.pos("ox"), ctx.pos("oy")]
    first = choose_subs(ctx, xs, other, "first")
    then = choose_subs(ctx, xs, vs, "then")
    used = make()
    r1 = normal(lambda: used, first)
    if ctx.boolean("thrice"):
        normal(lambda: used, {})
    got = normal(lambda: used, then)
    want = normal(make, then)
    if isinstance(got, str) or isinstance(want, str):
        ctx.check(got == want, "history: the same error")
        return
    ctx.check(len(got) == len(want), "history: the same number of normal forms")
    for g, w in zip(got, want):
        ctx.check(set(g) == set(w) and len(g) == len(w), "history: the same terms")
        for exp in w:
            if exp in g:
                ctx.eq(g[exp], w[exp], "history: the same coefficients")
        ctx.check(getattr(g, "from_meq", False) == getattr(w, "from_meq", False),
                  "history: marked alike")
        ctx.check(g.parent is used, "history: belongs to its constraint")
    lhs, rhs = value(used.left, point), value(used.right, point)
    if used.oper == ">=":
        lhs, rhs = rhs, lhs
    if kind != 3:
        equivalent(ctx, got, lhs, rhs, point, "history")


def h_monomials(ctx):
    "monomial <= or >= monomial, arbitrary exponents"
    xs, vs, point = setup(ctx, "xy")
    a, av = term(ctx, 0, xs, vs, signed=False)
    b, bv = term(ctx, 1, xs, vs, signed=False)
    subs = choose_subs(ctx, xs, vs)
    ge = ctx.boolean("ge")
    try:
        c = (a >= b) if ge else (a <= b)
    except PrimalInfeasible:
        ctx.check(bv > av if ge else av > bv, "infeasible at construction only when impossible")
        return
    out = normal(lambda: c, subs)
    equivalent(ctx, out, *((bv, av) if ge else (av, bv)), point, "monomials")
    nothing_left(ctx, out, subs, xs, "monomials")


def h_equality(ctx):
    "monomial == monomial: two halves, marked as such"
    xs, vs, point = setup(ctx, "xy")
    a, av = term(ctx, 0, xs, vs, signed=False)
    num = ctx.boolean("number")
    if num:
        b = bv = ctx.pos("b")
    else:
        b, bv = term(ctx, 1, xs[:1], vs[:1], signed=False)
    subs = choose_subs(ctx, xs, vs)
    try:
        c = (a == b)
    except PrimalInfeasible:
        ctx.check(av != bv, "equality: refused only when impossible")
        return
    if not isinstance(c, MonomialEquality):
        ctx.check(c is False, "an equality or False")
        ctx.check(av != bv, "not an equality only when impossible")
        return
    out = normal(lambda: c, subs)
    if out == "infeasible":
        ctx.check(av != bv, "equality: infeasible only when impossible")
        return
    ctx.check(out != "signomial", "equality: stays a posynomial constraint")
    ctx.check(len(out) in (0, 2), "equality: two halves or nothing")
    if not out:
        ctx.check(av <= bv*(1+2*TOL), "equality: disappears only when true")
        ctx.check(bv <= av*(1+2*TOL), "equality: disappears only when true")
        return
    for hm in out:
        ctx.check(len(hm) == 1, "equality: monomial halves")
        ctx.check(getattr(hm, "from_meq", False) is True, "equality: marked")
        ctx.check(all(len(e) > 0 for e in hm), "equality: not constant")
    g0, g1 = (value(hm, point) for hm in out)
    ctx.eq(g0*bv, av, "equality: left over right")
    ctx.eq(g1*av, bv, "equality: right over left")
    nothing_left(ctx, out, subs, xs, "equality")


UNITS = [("meter", "foot"), ("foot", "meter"), ("hour", "minute"), ("kilometer", "inch")]


def h_units(ctx):
    "terms, bound and substituted quantities in different units"
    ua, ub = UNITS[ctx.choice("units", len(UNITS))]
    x, y, z = X("x", ua), X("y", ub), X("z")
    sv = {v.key: ctx.pos(n) for v, n in ((x, "x"), (y, "y"), (z, "z"))}   # SI values
    c = [ctx.pos("c%d" % i) for i in range(3)]
    form = ctx.choice("form", 4)
    left, right = [
        (lambda: c[0]*x*z + c[1]*y, lambda: c[2]*x),
        (lambda: c[0]*x + c[1]*y*z, lambda: c[2]*y),
        (lambda: c[0]*x*z + c[1]*x/z, lambda: c[2]*gpkit.units(ub)),
        (lambda: c[0]*x/y + c[1]*z, lambda: c[2])][form]
    p, m = left(), right()
    con = (p <= m) if form > 1 or ctx.boolean("flip") else (m >= p)
    fac = {k: v/si(k.units)[0] for k, v in sv.items()}
    subs = {}
    for i, v in enumerate((x, y, z)):
        how = ctx.choice("how%d" % i, 3 if v.key.units else 2)
        if how == 1:
            subs[v.key] = fac[v.key]
        elif how == 2:
            u = ub if v is x else ua
            subs[v.key] = (sv[v.key]/UNIT_TABLE[u][0])*gpkit.units(u)
    lhs = sivalue(p, sv)
    rhs = sivalue(m, sv) if hasattr(m, "hmap") else (
        c[2]*UNIT_TABLE[ub][0] if form == 2 else m)
    out = normal(lambda: con, subs)
    equivalent(ctx, out, lhs, rhs, fac, "units")
    nothing_left(ctx, out, subs, [x, y, z], "units")


def h_zero(ctx):
    "zero substituted on either side"
    xs, vs, point = setup(ctx, "xyz")
    x, y, z = xs
    c0, c1 = ctx.pos("c0"), ctx.pos("c1")
    vx, vy, vz = vs
    form = ctx.choice("form", 5)
    con = [lambda: c0*x*y <= z, lambda: c0*x + c1*y/z <= 1, lambda: c0*x <= y/z,
           lambda: c0*x + c1*z <= y, lambda: c0*x*z + c1*y*z**0.5 <= x][form]()
    subs = {z.key: 0}
    if ctx.boolean("also x"):
        subs[x.key] = vx
    if ctx.boolean("also y"):
        subs[y.key] = vy
    out = normal(lambda: con, subs)
    if form in (0, 1):
        ctx.check(out == "infeasible", "zero: dividing by it is impossible")
    elif form in (2, 4):
        ctx.check(out == [], "zero: times anything is always true")
    else:
        equivalent(ctx, out, c0*vx, vy, point, "zero: the other terms remain")


def h_negative(ctx):
    "negative numbers never make it into a posynomial constraint unnoticed"
    xs, vs, point = setup(ctx, "xyz")
    x, y, z = xs
    vx, vy, vz = vs
    c0, c1 = ctx.pos("c0"), ctx.pos("c1")
    s = ctx.nonzero("s")
    form = ctx.choice("form", 3)
    con, lhs = [(lambda: c0*x*y + c1*z <= y, lambda: c0*s*vy + c1*vz),
                (lambda: c0*x + c1*z <= y, lambda: c0*s + c1*vz),
                (lambda: c0*x**2*z + c1*z <= y, lambda: c0*s**2*vz + c1*vz)][form]
    subs = {x.key: s}
    if ctx.boolean("also y"):
        subs[y.key] = vy
    con = con()
    out = normal(lambda: con, subs)
    lhs = lhs()
    if out == "signomial" or out == "infeasible":
        if out == "signomial" or form != 1:
            ctx.check(s < 0 if out == "signomial" else ctx.holds(s < 0) or lhs > vy,
                      "negative: refused only when negative")
        return
    for hm in out:
        for exp, c in hm.items():
            ctx.check(c > 0, "negative: refused")
    if out:
        got = value(out[0], point)
        if ctx.holds(lhs <= vy):
            ctx.le(got, 1, "negative: admits every point")
        else:
            ctx.check(got > 1, "negative: admits no other point")
    else:
        ctx.check(lhs <= vy*(1+2*TOL), "negative: disappears only when true")


HARNESSES = [
    Harness("symexp", h_symexp, "2 terms with symbolic coefficients and exponents in 2 variables <= "
            "a monomial; every subset substituted by symbolic values"),
    Harness("terms", h_terms, "2 terms, exponents from 6 pairs, bound from 4 (shifted terms collide), "
            "symbolic coefficients, every subset substituted"),
    Harness("three", h_three, "3 terms, exponents from 4 pairs, bound from 4, every subset substituted",
            max_paths=20000),
    Harness("history", h_history, "4 constraint shapes; generated under any substitution, then any other"),
    Harness("monomials", h_monomials, "monomial against monomial, symbolic exponents in 2 variables"),
    Harness("equality", h_equality, "monomial == monomial or number, symbolic exponents"),
    Harness("units", h_units, "4 shapes, 4 unit pairs, substituted numbers and foreign quantities"),
    Harness("zero", h_zero, "5 shapes with a variable substituted by 0"),
    Harness("negative", h_negative, "3 shapes with a variable substituted by any nonzero number"),
]
