"Units are converted consistently, whatever happened before"
import gc
from .lib import *
from gpkit.keydict import KeyDict

L_UNITS = ("m", "cm", "ft", "km")
FAC = {"m": 1.0, "cm": 0.01, "ft": 0.3048, "km": 1000.0, "s": 1.0, "hr": 3600.0, "min": 60.0,
       "kg": 1.0, "g": 0.001, "N": 1.0}

from gpkit.constraints.gp import GeometricProgram


def two(ctx, n=4):
    u1 = L_UNITS[ctx.choice("u1", n)]
    u2 = L_UNITS[ctx.choice("u2", n)]
    x, y = X("x", u1), X("y", u2)
    X_, Y_ = ctx.pos("x"), ctx.pos("y")        # SI values
    return u1, u2, x, y, X_, Y_, {x.key: X_, y.key: Y_}


def add(ctx):
    u1, u2, x, y, vx, vy, pt = two(ctx)
    c, d, e = ctx.nonzero("c"), ctx.nonzero("d"), ctx.nonzero("e")
    with SignomialsEnabled():
        P = c*x**2/y + d*y
        S = P + e*x
        D = P - e*x
        R = e*x + P
        W = (c*x + d*y)*(e*x + y)
    vP = c*vx**2/vy + d*vy
    ctx.eq(sivalue(P, pt), vP, "sum of compatible units")
    ctx.eq(sivalue(S, pt), vP + e*vx, "sum of compatible units")
    ctx.eq(sivalue(R, pt), vP + e*vx, "reversed sum")
    ctx.eq(sivalue(D, pt), vP - e*vx, "difference")
    ctx.eq(sivalue(W, pt), (c*vx + d*vy)*(e*vx + vy), "product of mixed units")
    for n in (P, S, D, R):
        ctx.check(si(n.units)[1] == {"L": 1}, "dimensions of a sum")
    ctx.check(si(W.units)[1] == {"L": 2}, "dimensions of a product")
    ctx.eq(sivalue(x*1, pt), vx, "operands unchanged")


def quantities(ctx):
    "numbers with units added to / multiplied with nomials"
    u1, u2, x, _, vx, _, pt = two(ctx)
    q = ctx.pos("q")
    Q = q*gpkit.ureg(u2)
    vq = q*FAC[u2]
    form = ctx.choice("form", 6)
    if form == 0:
        n, v, d = x + Q, vx + vq, 1
    elif form == 1:
        n, v, d = x*Q, vx*vq, 2
    elif form == 2:
        n, v, d = x/Q, vx/vq, 0
    elif form == 3:
        n, v, d = x + q*gpkit.units(u2), vx + vq, 1
    elif form == 4:
        n, v, d = q*gpkit.units(u2)/x, vq/vx, 0
    else:
        n, v, d = gpkit.units(u2)*(x + x*q), FAC[u2]*vx*(1+q), 2
    ctx.eq(sivalue(n, pt), v, "number with units")
    ctx.check(si(n.units)[1] == ({"L": d} if d else {}), "dimensions with a united number")


def quantity_first(ctx):
    "quantities (dimensionless ones too) on the left of nomials, and what's made of those"
    u, fac = [("m", 1.0), ("ft", FAC["ft"]), ("ft/m", FAC["ft"]), ("inch/ft", 1/12.)][ctx.choice("u", 4)]
    dims = {"L": 1} if u in FAC else {}
    x, y = X("x", "ft"), X("y", u)
    q, vx, vy, c = ctx.pos("q"), ctx.pos("x"), ctx.pos("y"), ctx.pos("c")
    Q, vq = q*gpkit.ureg(u), q*fac
    pt = {x.key: vx, y.key: vy}
    P = x + c*x**2/gpkit.units("m")
    vP = vx + c*vx*vx
    form = ctx.choice("form", 7)
    if form < 5:
        with SignomialsEnabled():
            n = [lambda: Q*x, lambda: Q/x, lambda: Q + y, lambda: Q - y, lambda: Q*P][form]()
        want = [vq*vx, vq/vx, vq + vy, vq - vy, vq*vP][form]
        ctx.eq(sivalue(n, pt), want, "left: value")
        power = dims.get("L", 0) + [1, -1, 0, 0, 1][form]
        ctx.check(si(n.units)[1] == ({"L": power} if power else {}), "left: units")
        with SignomialsEnabled():
            ctx.eq(sivalue(n/x, pt), want/vx, "left: in a quotient")
        return
    if form == 5:
        con, want = (Q*P <= y*x, vq*vP/(vy*vx))
    else:
        con, want = (Q <= y, vq/vy)
    p, = con.unsubbed
    up = {vk: v/si(vk.units)[0] for vk, v in pt.items()}
    ctx.eq(value(p, up), want, "left: constraint")


def convert(ctx):
    u1, u2, x, y, vx, vy, pt = two(ctx)
    c, d = ctx.pos("c"), ctx.pos("d")
    P = c*x + d*y
    M = c*x
    u3 = L_UNITS[ctx.choice("u3", 4)]
    for n, v in ((P, c*vx + d*vy), (M, c*vx), (x, vx)):
        T = n.to(u3)
        ctx.check(si(T.units) == (FAC[u3], {"L": 1}), "converted to the units asked for")
        ctx.eq(sivalue(T, pt), v, "conversion keeps the value")
        ctx.eq(sivalue(n, pt), v, "conversion leaves the original")
    for bad in ("s", "kg", "m**2", "dimensionless"):
        try:
            P.to(bad)
            ctx.check(False, "wrong conversion raises")
        except gpkit.DimensionalityError:
            ctx.check(True, "wrong conversion raises")


def constrain(ctx):
    "the normal form has exactly the SI ratio; meq and inequality both ways"
    u1, u2, x, y, vx, vy, pt = two(ctx)
    c, d = ctx.pos("c"), ctx.pos("d")
    form = ctx.choice("form", 5)
    if form == 0:
        con, lhs, rhs = (c*x >= d*y), d*vy, c*vx
    elif form == 1:
        con, lhs, rhs = (c*x + y <= d*y**2/x), c*vx + vy, d*vy**2/vx
    elif form == 2:
        con, lhs, rhs = (d*x >= y + c*y**2/x), vy + c*vy**2/vx, d*vx
    elif form == 3:
        con, lhs, rhs = (x**2 >= c*y**2), c*vy**2, vx**2
    else:
        con, lhs, rhs = (c*x**1.5 >= d*y*x**0.5), d*vy*vx**0.5, c*vx**1.5
    up = {vk: v/si(vk.units)[0] for vk, v in pt.items()}
    p, = con.unsubbed
    ctx.check(not si(p.units)[1], "normal form is dimensionless")
    ctx.eq(value(p, up)*rhs, lhs, "normal form is the SI ratio")
    eq = (c*x == d*y)
    a, b = eq.unsubbed
    ctx.eq(value(a, up)*d*vy, c*vx, "equality is the SI ratio")
    ctx.eq(value(b, up)*c*vx, d*vy, "equality is the SI ratio both ways")
    with SignomialsEnabled():
        sig = (x + c*y >= d*x + y**2/x)
    s, = sig.unsubbed
    ctx.eq(sivalue(s, pt), d*vx + vy**2/vx - vx - c*vy, "signomial difference in SI")


def constrain_quantity(ctx):
    u1, u2, x, _, vx, _, pt = two(ctx)
    q = ctx.pos("q")
    up = {vk: v/si(vk.units)[0] for vk, v in pt.items()}
    Q = q*gpkit.ureg(u2) if ctx.boolean("qty") else q*gpkit.units(u2)
    vq = q*FAC[u2]
    form = ctx.choice("form", 3)
    con = (x >= Q, x <= Q, x == Q)[form]
    p = con.unsubbed[0]
    if form == 0:
        ctx.eq(value(p, up)*vx, vq, "bound in other units")
    else:
        ctx.eq(value(p, up)*vq, vx, "bound in other units")


def incompatible(ctx):
    "every operation that mixes dimensions raises; nothing is silently stripped"
    c = ctx.pos("c")
    pairs = (("m", "s"), ("m", None), ("kg", "N"), ("m", "m**2"), ("s", "1/s"))
    u1, u2 = pairs[ctx.choice("pair", 5)]
    x, y = X("x", u1), X("y", u2) if u2 else X("y")
    if ctx.boolean("swap"):
        x, y = y, x
    ops = {
        "add": lambda: x + c*y,
        "sub": lambda: x - c*y,
        "ge": lambda: x >= c*y,
        "le": lambda: x + x*c <= y,
        "sig": lambda: x + x**2/x <= c*y + y,
        "sub value": lambda: (x*2).sub({x: c*y.units if y.units else c*gpkit.ureg("kg*m")}),
        "sub mono": lambda: (x*2).sub({x: c*gpkit.units("kg*s")}),
        "keydict": lambda: KeyDict({x.key: c*gpkit.ureg("kg*s")}),
        "sum": lambda: gpkit.NomialArray([x, y]).sum(),
    }
    for name, op in ops.items():
        try:
            with SignomialsEnabled():
                out = op()
            ctx.check(False, name+": incompatible units raise")
        except gpkit.DimensionalityError:
            ctx.check(True, name+": incompatible units raise")
    # an equality between them is simply false
    ctx.check((x == c*y) is False or not (x == c*y), "incompatible equality is not true")
    if u2 is None:
        for name, op in {"add number": lambda: x + c, "radd number": lambda: c + x,
                         "ge number": lambda: x >= c, "le number": lambda: c >= x}.items():
            if x.units:
                try:
                    op()
                    ctx.check(False, name+": plain numbers do not mix with units")
                except gpkit.DimensionalityError:
                    ctx.check(True, name+": plain numbers do not mix with units")


OPS = 7


def unit_op(ctx, k, x, y, c):
    "an operation in mixed units; its normal form's value times den == num"
    vx, vy = ctx.pos("X"), ctx.pos("Y")
    pt = {x.key: vx, y.key: vy}
    up = {vk: v/si(vk.units)[0] for vk, v in pt.items()}
    if k == 0:
        p, = (c*x**2 >= y**2).unsubbed
        ctx.eq(value(p, up)*c*vx**2, vy**2, "history: square inequality")
    elif k == 1:
        p, = (c*x**3 >= y**3 + y**2*x).unsubbed
        ctx.eq(value(p, up)*c*vx**3, vy**3 + vy**2*vx, "history: cubic inequality")
    elif k == 2:
        p, = (y**0.5 >= c*x**0.5).unsubbed
        ctx.eq(value(p, up)*vy**0.5, c*vx**0.5, "history: root inequality")
    elif k == 3:
        n = c*x**2 + y*x
        ctx.eq(sivalue(n, pt), c*vx**2 + vy*vx, "history: sum")
    elif k == 4:
        n = (c*x + y)/(x*y)*(y**2/x)
        ctx.eq(sivalue(n, pt), (c*vx + vy)/(vx*vy)*vy**2/vx, "history: product and quotient")
    elif k == 5:
        n = gpkit.NomialArray([x*y, c*y**2]).sum()
        ctx.eq(sivalue(n, pt), vx*vy + c*vy**2, "history: array sum")
    else:
        n = gpkit.NomialArray([x, y, y]).prod()
        ctx.eq(sivalue(n, pt), vx*vy*vy, "history: array product")
        p, = (n <= c*x**3).unsubbed
        ctx.eq(value(p, up)*c*vx**3, vx*vy*vy, "history: array product constraint")


def history(ctx):
    "earlier operations in other units (whose temporaries are gone) change nothing"
    c = ctx.pos("c")
    first = ctx.choice("first", OPS)
    then = ctx.choice("then", OPS)
    names = (("m", "ft"), ("km", "cm"), ("ft", "km"))
    rot = ctx.choice("rot", 3)
    order = names[rot:] + names[:rot]
    reps = 3 if ctx.concrete else 2
    for r in range(reps):
        for n, (a, b) in enumerate(order):
            x, y = X("x", a), X("y", b)
            unit_op(ctx, first, x, y, c)
            unit_op(ctx, then, x, y, c)
            unit_op(ctx, then, y, x, c)
            unit_op(ctx, first, y, x, c)


def dimensionless(ctx):
    "ratios of compatible units become plain numbers with the factor applied"
    u1, u2, x, y, vx, vy, pt = two(ctx)
    c = ctx.pos("c")
    r = c*x/y
    ctx.check(not si(r.units)[1], "ratio is dimensionless")
    ctx.eq(sivalue(r, pt), c*vx/vy, "ratio value")
    s = r + 1
    ctx.eq(sivalue(s, pt), c*vx/vy + 1, "ratio plus a number")
    p, = (r + r**2 <= c*c).unsubbed
    up = {vk: v/si(vk.units)[0] for vk, v in pt.items()}
    ctx.eq(value(p, up)*c*c, c*vx/vy + (c*vx/vy)**2, "ratio bounded by a number")
    half = (x*y)**0.5
    ctx.check(si(half.units)[1] == {"L": 1}, "square root of an area is a length")
    ctx.eq(sivalue(half + x, pt), (vx*vy)**0.5 + vx, "square root of an area")
    q = ctx.pos("q")
    ratio = gpkit.ureg.inch/gpkit.ureg.m
    w, e = X("w"), X("e", "inch/m")
    with SignomialsEnabled():
        P = w + e + c
    for sub in (q*ratio, q*gpkit.units("inch")/gpkit.units("meter"), q*gpkit.units("inch/meter")):
        for k, kw in ((w, e), (e, w)):
            R = P.sub({k: sub})
            other = ctx.pos("o")
            fac = 0.0254 if kw is e else 1
            ctx.eq(sivalue(R, {kw.key: other*fac}), q*0.0254 + other*fac + c,
                   "ratio substituted")
        m = gpkit.Model(w*e*x/x, [x >= w*e*gpkit.units(u1)])
        for k, want in ((w, q*0.0254), (e, q)):
            if k is e and hasattr(sub, "hmap") and sub.units is None:
                continue  # a nomial without units is a plain number, as to a variable's key
            kd = {k.key: sub}
            gp = GeometricProgram(m.cost, gpkit.ConstraintSet(list(m)), dict(kd), checkbounds=False)
            got = gp.substitutions[k.key]
            if hasattr(got, "magnitude"):
                fac, dims = si(got.units*1)
                got = got.magnitude*fac/(1 if k is w else 0.0254)
            ctx.eq(got, want, "ratio as a program's constant")
            hm = gp.hmaps[0]
            rest = [vk for exp in hm for vk in exp]
            ctx.check(len(rest) == 1 and len(hm) == 1, "the other variable remains")
            fac = si(hm.units)[0] if hm.units is not None else 1
            ctx.eq(list(hm.values())[0]*fac, q*0.0254*(0.0254 if k is w else 1),
                   "ratio compiled into the cost")
    d = Variable("d", "ft/m")
    ctx.eq(sivalue(d*1, {d.key: 1}), 1, "variable in a ratio of units")


def keydict(ctx):
    u1, u2, x, _, vx, _, _ = two(ctx)
    q = ctx.pos("q")
    kd = KeyDict({x.key: q*gpkit.ureg(u2)})
    ctx.eq(kd[x]*FAC[u1], q*FAC[u2], "stored in the variable's units")
    ctx.eq(kd(x).to("m").magnitude, q*FAC[u2], "returned with units")
    kd[x] = 2*q*gpkit.units(u2)
    ctx.eq(kd[x]*FAC[u1], 2*q*FAC[u2], "stored from a constant nomial")


def aggregate(ctx):
    "array sums and products over mixed units"
    us = [L_UNITS[ctx.choice("u%d" % i, 3)] for i in range(3)]
    xs = [X("x%d" % i, u) for i, u in enumerate(us)]
    vs = [ctx.pos("x%d" % i) for i in range(3)]
    pt = {x.key: v for x, v in zip(xs, vs)}
    c = ctx.pos("c")
    A = gpkit.NomialArray([xs[0], c*xs[1], xs[2]])
    ctx.eq(sivalue(A.sum(), pt), vs[0] + c*vs[1] + vs[2], "sum over mixed units")
    ctx.eq(sivalue(A.prod(), pt), vs[0]*c*vs[1]*vs[2], "product over mixed units")
    ctx.eq(sivalue(sum(A), pt), vs[0] + c*vs[1] + vs[2], "python sum over mixed units")


def named(ctx):
    "units asked for by name, in any order, are theirs"
    want = {"m": (1, {"L": 1}), "mm": (1e-3, {"L": 1}), "Mm": (1e6, {"L": 1}), " m": (1, {"L": 1}),
            "m**2": (1, {"L": 2}), "m*ft": (FAC["ft"], {"L": 2}), "ft*m": (FAC["ft"], {"L": 2}), "1/m": (1, {"L": -1}),
            "1/Mm": (1e-6, {"L": -1}), "1/mm": (1e3, {"L": -1}), "m^2": (1, {"L": 2})}
    names = list(want)
    i, j = ctx.choice("i", len(names)), ctx.choice("j", len(names))
    getattr(gpkit.units, "monomial_cache", {}).clear()      # what other paths asked for
    c, vx = ctx.pos("c"), ctx.pos("x")
    x = X("x", "ft")
    for n in (names[i], names[j], names[i]):
        u, (size, dims) = gpkit.units(n), want[n]
        ctx.eq(sivalue(c*x*u, {x.key: vx}), c*vx*size, "named: in a product")
        ctx.eq(sivalue(c*x/u, {x.key: vx}), c*vx/size, "named: in a quotient")
        ctx.check(si((x*u).units)[1] == {k: v for k, v in {"L": 1 + dims["L"]}.items() if v}, "named: dimensions")


HARNESSES = [
    Harness("add", add, "4x4 length units, 3 terms, any signs"),
    Harness("quantities", quantities, "4x4 length units, 6 forms"),
    Harness("quantity_first", quantity_first, "quantities in 4 units (2 of them ratios), 7 forms"),
    Harness("convert", convert, "4x4x4 length units, 2 terms"),
    Harness("constrain", constrain, "4x4 length units, 4 constraint forms, signomial"),
    Harness("constrain_quantity", constrain_quantity, "4x4 length units, 3 operators, 2 forms"),
    Harness("incompatible", incompatible, "5 unit pairs, both orders, 9 operations"),
    Harness("history", history, "7x7 pairs of operations, 3 orders of 3 unit systems", rtol=1e-6),
    Harness("dimensionless", dimensionless, "4x4 length units"),
    Harness("keydict", keydict, "4x4 length units"),
    Harness("named", named, "11x11 names, asked for in turn"),
    Harness("aggregate", aggregate, "3x3x3 length units, 3 elements"),
]
