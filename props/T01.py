"Taylor expansions have exactly the stated coefficients"
from fractions import Fraction
from math import comb
from .lib import *
from gpkit.tools.tools import te_exp_minus1, te_secant, te_tangent
from gpkit.nomials import NomialArray
from gpkit.exceptions import DimensionalityError

NOTE = ("the numbers the expansions are compared with come from the defining recurrences of sec and tan "
        "(sec*cos = 1, tan*cos = sin) in exact rational arithmetic, not from the tables in tools.py; past twelve "
        "terms the secant's tabulated numbers give way to their documented asymptotic form, checked to 1/2 percent")


def factorial(n):
    return 1 if n < 2 else n*factorial(n-1)


def sec_coeffs(n):
    "sec x = sum s_i x**(2i), from sec*cos = 1"
    s = [Fraction(1)]
    for i in range(1, n+1):
        s.append(-sum(s[i-j]*Fraction((-1)**j, factorial(2*j)) for j in range(1, i+1)))
    return s


def tan_coeffs(n):
    "tan x = sum t_i x**(2i+1), from tan*cos = sin"
    t = []
    for i in range(n):
        t.append(Fraction((-1)**i, factorial(2*i+1))
                 - sum(t[i-j]*Fraction((-1)**j, factorial(2*j)) for j in range(1, i+1)))
    return t


def exp_coeffs(n):
    return [Fraction(1, factorial(i)) for i in range(1, n+1)]


def expected(which, n):
    "{power: coefficient}"
    if which == "exp":
        return {i+1: c for i, c in enumerate(exp_coeffs(n))}
    if which == "sec":
        return {2*i: c for i, c in enumerate(sec_coeffs(n))}
    return {2*i+1: c for i, c in enumerate(tan_coeffs(n))}


FUNCS = {"exp": te_exp_minus1, "sec": te_secant, "tan": te_tangent}


def monomial(which, orders, signed=False):
    "c*x**a*y**b: each power of it appears once, with its coefficient"
    def fn(ctx):
        n = ctx.choice("order", len(orders))
        n = orders[n]
        xs, vs, pt = setup(ctx, "xy")
        c = ctx.pos("c")
        e, f = ctx.real("e"), ctx.real("f")
        ctx.assume(e != 0)
        ctx.assume(f != 0)
        m = c*xs[0]**e*xs[1]**f
        before = dict(m.hmap)
        out = FUNCS[which](m, n)
        want = expected(which, n)
        terms = {} if out is 0 or not hasattr(out, "hmap") else out.hmap
        if not hasattr(out, "hmap"):
            ctx.check(not want or set(want) == {0}, "a number only without non-constant terms")
            ctx.eq(out, 1 if want else 0, "no terms: the constant")
            return
        ctx.check(len(terms) == len(want), "one term for each power")
        for exp, coef in terms.items():
            ctx.check(set(exp) <= {xs[0].key, xs[1].key}, "no other variables")
            pows = [p for p in want
                    if ctx.holds(exp.get(xs[0].key, 0) == p*e) and ctx.holds(exp.get(xs[1].key, 0) == p*f)]
            ctx.check(len(pows) == 1, "every term is a power of the argument")
            for p in pows:
                num, w = coef, float(want[p])*c**p
                tol = 5e-3 if which == "sec" and p > 24 else 1e-9
                ctx.check(num <= w*(1+tol), "coefficient is not above the Taylor coefficient")
                ctx.check(num >= w*(1-tol), "coefficient is not below the Taylor coefficient")
        ctx.check(dict(m.hmap) == before, "the argument is left as it was")
    return fn


def posynomial(which, orders):
    "any two-term argument: the value is the Taylor polynomial at the argument's value"
    def fn(ctx):
        n = orders[ctx.choice("order", len(orders))]
        xs, vs, pt = setup(ctx, "xy")
        (A, va), (B, vb) = [term(ctx, i, xs, vs, signed=False) for i in range(2)]
        out = FUNCS[which](A+B, n)
        v = va+vb
        ctx.eq(value(out, pt), sum(float(c)*v**p for p, c in expected(which, n).items()),
               "value at the argument's value")
    return fn


def signomial(which, orders):
    def fn(ctx):
        n = orders[ctx.choice("order", len(orders))]
        xs, vs, pt = setup(ctx, "xy")
        with SignomialsEnabled():
            c, d = ctx.nonzero("c"), ctx.nonzero("d")
            arg = c*xs[0]+d*xs[1]
            out = FUNCS[which](arg, n)
        v = c*vs[0]+d*vs[1]
        ctx.eq(value(out, pt), sum(float(k)*v**p for p, k in expected(which, n).items()),
               "value at the argument's value")
    return fn


def units(which, orders):
    "arguments in units: only pure numbers have powers that add up"
    UNITS = [("in", "ft"), ("ft", "ft"), ("ft", "s"), ("m", None), (None, "m")]

    def fn(ctx):
        n = orders[ctx.choice("order", len(orders))]
        ux, uy = UNITS[ctx.choice("units", len(UNITS))]
        x = X("x", ux) if ux else X("x")
        y = X("y", uy) if uy else X("y")
        sx, sy = ctx.pos("x"), ctx.pos("y")
        c = ctx.pos("c")
        arg = c*x/y
        pure = not si(arg.units)[1]
        mixed = len(expected(which, n)) > 1
        try:
            out = FUNCS[which](arg, n)
        except DimensionalityError:
            ctx.check(not pure, "pure numbers are accepted")
            return
        ctx.check(pure or not mixed, "powers of a length are not added up")
        if not pure:
            return
        pt = {x.key: sx, y.key: sy}
        v = sivalue(arg, pt)
        ctx.eq(v, c*sx/sy, "argument means what it says")
        ctx.check(not si(out.units)[1], "the expansion is a pure number")
        ctx.eq(sivalue(out, pt), sum(float(k)*v**p for p, k in expected(which, n).items()),
               "the expansion is in the argument's own size, whatever its units")
    return fn


def arrays(which, orders):
    "vector arguments expand element by element"
    def fn(ctx):
        n = orders[ctx.choice("order", len(orders))]
        v = VectorVariable(2, "v")
        cs = [ctx.pos("c%d" % i) for i in range(2)]
        vals = [ctx.pos("v%d" % i) for i in range(2)]
        arg = NomialArray([cs[0]*v[0], cs[1]*v[1]])
        before = [dict(a.hmap) for a in arg]
        out = FUNCS[which](arg, n)
        ctx.check(out.shape == (2,), "same shape")
        pt = {v[i].key: vals[i] for i in range(2)}
        for i in range(2):
            a = cs[i]*vals[i]
            ctx.eq(value(out[i], pt), sum(float(k)*a**p for p, k in expected(which, n).items()),
                   "each element is the expansion of its own argument")
        ctx.check([dict(a.hmap) for a in arg] == before, "the argument is left as it was")
    return fn


def limits(ctx):
    "orders past the table are refused, not made up"
    x = X("x")
    c = ctx.pos("c")
    n = ctx.choice("order", 4)
    try:
        te_tangent(c*x, 16+n)
        ctx.check(False, "orders past the tangent's table are refused")
    except NotImplementedError:
        ctx.check(True, "refused")


HARNESSES = []
for w in FUNCS:
    top = {"exp": 12, "sec": 16, "tan": 15}[w]
    HARNESSES += [
        Harness("monomial-"+w, monomial(w, [0, 1, 2, 3, 4, 5, 6]), "c*x**a*y**b, any c>0, a, b nonzero; orders 0-6"),
        Harness("monomial-high-"+w, monomial(w, list(range(7, top+1))),
                "c*x**a*y**b, any c>0, a, b nonzero; orders 7-%d" % top),
        Harness("posynomial-"+w, posynomial(w, [1, 2] if w != "exp" else [1, 2, 3]),
                "any two-monomial argument in x, y; orders to 2 (exp: 3)"),
        Harness("signomial-"+w, signomial(w, [1, 2]), "c*x + d*y of any signs; orders 1, 2"),
        Harness("units-"+w, units(w, [1, 2, 3]), "5 pairs of units, any c>0; orders 1-3"),
        Harness("arrays-"+w, arrays(w, [1, 2, 3]), "2-element vectors, any coefficients; orders 1-3"),
    ]
HARNESSES.append(Harness("limits", limits, "tangent orders 16-19"))
