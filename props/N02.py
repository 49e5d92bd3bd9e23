"Canonical form decides class, equality and hash"
import contextlib
from .lib import *
from gpkit.nomials.map import NomialMap
from gpkit.small_classes import HashVector
from gpkit.exceptions import PrimalInfeasible


def merged(ctx, terms):
    "reference: list of [coef, exponents] with equal exponents merged, zeros dropped"
    out = []
    for c, es in terms:
        for t in out:
            if all(ctx.holds(a == b) for a, b in zip(t[1], es)):
                t[0] = t[0] + c
                break
        else:
            out.append([c, es])
    return [t for t in out if not ctx.holds(t[0] == 0)]


def same(ctx, t1, t2):
    if len(t1) != len(t2):
        return False
    left = list(t2)
    for c, es in t1:
        for i, (d, fs) in enumerate(left):
            if all(ctx.holds(a == b) for a, b in zip(es, fs)):
                if not ctx.holds(c == d):
                    return False
                left.pop(i)
                break
        else:
            return False
    return True


def build(x, terms):
    n = 0
    for c, es in terms:
        t = c
        for xi, e in zip(x, es):
            t = t*xi**e
        n = n + t
    return n


def equality(nl, nr, nvar, signed):
    def fn(ctx):
        xs = [X(n) for n in "xy"[:nvar]]
        with SignomialsEnabled() if signed else contextlib.nullcontext():
            ls = [(ctx.nonzero("c%d" % i) if signed else ctx.pos("c%d" % i),
                   [ctx.real("e%d%d" % (i, j)) for j in range(nvar)]) for i in range(nl)]
            rs = [(ctx.nonzero("d%d" % i) if signed else ctx.pos("d%d" % i),
                   [ctx.real("f%d%d" % (i, j)) for j in range(nvar)]) for i in range(nr)]
            L, R = build(xs, ls), build(xs, rs)
            ml, mr = merged(ctx, ls), merged(ctx, rs)
            want = same(ctx, ml, mr)
            for n, m, tag in ((L, ml, "left"), (R, mr, "right")):
                ctx.check(len(n.hmap) == max(len(m), 1), "terms are merged")
                canonical(ctx, n, tag)
                classof(ctx, n, tag)
                hash_ok(ctx, n, tag)
            try:
                got = bool(L == R)
            except PrimalInfeasible:    # an impossible equality constraint
                got = False
            ctx.check(got == want, "equal exactly when the terms are")
            ctx.check(bool(L != R) == (not want), "unequal exactly when the terms differ")
            if want:
                ctx.check(hash(L) == hash(R), "equal nomials hash equally")
                ctx.check(L in {R: 1} if not isinstance(L, Monomial) else True,
                          "equal nomials are one dictionary key")
    return fn


def reorder(ctx):
    "the same value by different routes"
    xs, vs, pt = setup(ctx, "xy")
    (A, _), (B, _), (C, _) = [term(ctx, i, xs, vs, signed=False) for i in range(3)]
    for name, L, R in (("distribution", (A+B)*C, C*B+C*A),
                       ("association", (A+B)+C, A+(C+B)),
                       ("division", (A+B)/C, A/C+B/C)):
        ctx.check(len(L.hmap) == len(R.hmap), name+": same terms")
        for exp, c in L.hmap.items():
            ctx.check(exp in R.hmap, name+": same exponents")
            if exp in R.hmap:
                ctx.eq(R.hmap[exp], c, name+": same coefficients")
        hash_ok(ctx, L, name)
        hash_ok(ctx, R, name)
    M, N = (A*B)*C, C*(B*A)
    ctx.check(M.exp == N.exp, "products: same exponents")
    ctx.check(hash(M.exp) == hash(N.exp), "products: same exponent hash")
    D = (A/B)*B
    ctx.check(D.exp == A.exp, "quotient undone by product")
    ctx.check(hash(D.exp) == hash(A.exp), "quotient undone: same exponent hash")


def cancel_to_constant(ctx):
    xs, vs, pt = setup(ctx, "xy")
    A, va = term(ctx, 0, xs, vs, signed=False)
    one = A/A
    ctx.check(not one.vks, "x/x has no variables")
    ctx.eq(one.c, 1, "x/x equals 1")
    ctx.check(one == 1 or ctx.concrete and float(one.c) != 1, "x/x equals 1")
    ctx.check(one != 2, "x/x does not equal 2")
    canonical(ctx, one, "x/x")
    hash_ok(ctx, one, "x/x")
    classof(ctx, one, "x/x")
    with SignomialsEnabled():
        zero = A-A
        ctx.check(zero == 0, "x-x equals 0")
        B, vb = term(ctx, 1, xs, vs, signed=False)
        back = zero + B
        classof(ctx, back, "zero plus monomial")
        canonical(ctx, back, "zero plus monomial")
        ctx.eq(value(back, pt), vb, "zero plus monomial value")
        again = (A+B)-A
        classof(ctx, again, "difference")
        same_terms(ctx, again.hmap, B.hmap, "a+b-a equals b")


def construct(ctx):
    "constructors from exponent dictionaries and coefficients"
    e, f, c = ctx.real("e"), ctx.real("f"), ctx.real("c")
    x, y = X("x"), X("y")
    vx, vy = ctx.pos("x"), ctx.pos("y")
    pt = {x.key: vx, y.key: vy}
    sig = ctx.boolean("signomials")
    try:
        with SignomialsEnabled() if sig else contextlib.nullcontext():
            n = Signomial({"x": e, "y": f}, c)
    except gpkit.exceptions.InvalidPosynomial:
        ctx.check(not sig, "nothing is rejected inside a signomial scope")
        ctx.check(c <= 0, "only nonpositive terms are rejected outside a signomial scope")
        return
    if not sig:
        ctx.check(c > 0, "nonpositive terms are rejected outside a signomial scope")
    ctx.eq(value(n, pt), c*vx**e*vy**f, "constructed value")
    canonical(ctx, n, "constructed")
    classof(ctx, n, "constructed")
    hash_ok(ctx, n, "constructed")


def constructmap(ctx):
    "constructor from a term map: positivity over all terms"
    c, d = ctx.real("c"), ctx.real("d")
    x, y = X("x"), X("y")
    hm = NomialMap({HashVector({x.key: 1}): c, HashVector({y.key: 2}): d})
    sig = ctx.boolean("signomials")
    try:
        with SignomialsEnabled() if sig else contextlib.nullcontext():
            n = Signomial(hm)
    except gpkit.exceptions.InvalidPosynomial:
        ctx.check(not sig and (ctx.holds(c <= 0) or ctx.holds(d <= 0)),
                  "rejected only with a nonpositive term outside a signomial scope")
        return
    if not sig:
        ctx.check(c > 0, "every term positive outside a signomial scope")
        ctx.check(d > 0, "every term positive outside a signomial scope")
    classof(ctx, n, "from map")


def numbers(ctx):
    "number * nomial and number constructors respect positivity"
    k = ctx.real("k")
    x, y = X("x"), X("y")
    P = x + 2*y**0.5
    ops = {"mul": lambda: P*k, "add": lambda: P+k, "const": lambda: Signomial(k),
           "rmul": lambda: k*x, "radd": lambda: k+x}
    name = ("mul", "add", "const", "rmul", "radd")[ctx.choice("op", 5)]
    try:
        n = ops[name]()
    except gpkit.exceptions.InvalidPosynomial:
        ctx.check(k <= 0, name+": only nonpositive numbers are rejected")
        return
    if hasattr(n, "hmap"):
        ctx.check(k > 0 if not ctx.holds(k == 0) else name in ("add", "radd"),
                  name+": nonpositive terms are rejected outside a signomial scope")
        classof(ctx, n, name)
    else:
        ctx.check(k == 0, name+": only zero gives a bare number")


def aftersub(ctx):
    "class after substitution; substitution outside a scope may go negative only if allowed"
    x, y = X("x"), X("y")
    with SignomialsEnabled():
        c, d = ctx.nonzero("c"), ctx.nonzero("d")
        e = ctx.real("e")
        P = c*x**e*y + d*y
    v = ctx.pos("v")
    n = P.sub({x: v}, require_positive=False)
    tot = c*v**e + d
    canonical(ctx, n, "after substitution")
    classof(ctx, n, "after substitution")
    hash_ok(ctx, n, "after substitution")
    ctx.check(isinstance(n, Monomial) == bool(tot > 0), "monomial iff one positive term is left")
    try:
        m = P.sub({x: v})
        ctx.check(tot > 0, "substitution to a nonpositive term is rejected outside a scope")
    except gpkit.exceptions.InvalidPosynomial:
        ctx.check(tot <= 0, "substitution to a positive term is accepted")


def units_equal(ctx):
    "units are part of equality"
    x, y = X("x", "m"), X("y")
    c = ctx.pos("c")
    P, Q = x + c*x**2/x, x*(1+c)
    same_terms(ctx, P.hmap, Q.hmap, "same terms")
    A = (c*y + y**2)
    ctx.check(not (A*gpkit.units("m") == A), "units differ: not equal")
    ctx.check(A*gpkit.units("m") != A*gpkit.units("s"), "units differ: unequal")
    ctx.check(A*gpkit.units("m") == A*gpkit.units("m"), "units agree: equal")


HARNESSES = [
    Harness("equal_1_1", equality(1, 1, 2, False), "1 vs 1 terms, 2 variables"),
    Harness("equal_2_2", equality(2, 2, 1, False), "2 vs 2 terms, 1 variable"),
    Harness("equal_sig_2_1", equality(2, 1, 1, True), "2 vs 1 terms, 1 variable, any signs"),
    Harness("equal_2_2_sig", equality(2, 2, 1, True), "2 vs 2 terms, any signs", tier="thorough",
            max_paths=60000),
    Harness("equal_2_2_2var", equality(2, 2, 2, False), "2 vs 2 terms, 2 variables",
            tier="thorough", max_paths=60000),
    Harness("equal_3_2", equality(3, 2, 1, False), "3 vs 2 terms, 1 variable", tier="thorough",
            max_paths=60000),
    Harness("routes", reorder, "3 monomials, 2 variables; two routes to the same value"),
    Harness("cancel", cancel_to_constant, "2 monomials, 2 variables"),
    Harness("construct", construct, "1 term, 2 variables"),
    Harness("construct_map", constructmap, "2 terms"),
    Harness("numbers", numbers, "any number in 5 operations"),
    Harness("after_sub", aftersub, "2 terms, 1 substituted variable"),
    Harness("units", units_equal, "2 terms, 2 units"),
]
