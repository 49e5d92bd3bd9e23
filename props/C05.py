"Bounded, tight and loose diagnostics report exactly what holds"
import numpy as np
import gpkit
from .lib import *
from gpkit import Model, VectorVariable
from gpkit.keydict import KeyDict
from gpkit.constraints.set import ConstraintSet
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose


def vecval(ctx, vals):
    if ctx.concrete:
        return np.array([float(v) for v in vals])
    arr = np.array([None]*len(vals), dtype=object)
    arr[:] = vals
    return arr


def warned(result, kind):
    return [d for _, d in result.get("warnings", {}).get(kind, [])]


def h_bounds(ctx):
    "the wrapper adds exactly its bounds to the free variables"
    x, v, k = X("x", "ft"), VectorVariable(2, "v", "inch"), X("k", ctx.pos("vk"))
    cons = [x >= k*gpkit.units("m"), v >= k*gpkit.units("ft"), v[0] >= ctx.pos("c")*v[1]]
    if ctx.boolean("set"):
        part = ctx.boolean("part")
        cons = ConstraintSet(cons, {v[1]: ctx.pos("v1")} if part else None)
    else:
        part = False
    eps, lo, up = ctx.pos("eps"), ctx.pos("lo"), ctx.pos("up")
    kw, wl, wu = {}, 1e-30, 1e30
    if ctx.boolean("eps?"):
        kw["eps"] = eps
        wl, wu = eps, 1/eps
    if ctx.boolean("lo?"):
        kw["lower"] = wl = lo
    if ctx.boolean("up?"):
        kw["upper"] = wu = up
    b = Bounded(cons, **kw)
    free = {x.key, v[0].key} | (set() if part else {v[1].key})
    ctx.check(set(b.bound_varkeys) == free, "every free variable is bounded, and only those")
    want = [hm for c in ConstraintSet(cons).flat() for hm in c.as_hmapslt1({})]
    got = list(b.as_hmapslt1({}))
    ctx.check(len(got) == len(want) + 2*len(free), "two bounds each")
    for g, w in zip(got, want):
        ctx.check(set(g) == set(w), "the constraints are unchanged")
        for e in w:
            if e in g:
                ctx.eq(g[e], w[e], "the constraints are unchanged")
    point = {kk: ctx.pos("p%d" % i) for i, kk in enumerate(sorted(free, key=str))}
    seen = set()
    for g in got[len(want):]:
        (exp, c), = g.items()
        (kk, e), = exp.items()
        ctx.check(e in (1, -1) and (kk, e) not in seen, "each bound once")
        seen.add((kk, e))
        if e == 1:
            ctx.eq(c*wu, 1, "upper bound")
        else:
            ctx.eq(c, wl, "lower bound")
    ctx.check((k in b.substitutions) and x not in b.substitutions, "values are kept")
    ctx.check(si(x.units) == (FT, {"L": 1}) == si(x.key.units), "units untouched")


def h_boundaries(ctx):
    "what is reported for any solution and any sensitivities"
    x, y = X("x"), X("y", "m")
    lo, up = ctx.pos("lo"), ctx.pos("up")
    b = Bounded([x >= ctx.pos("c")*y/gpkit.units("m")], lower=lo, upper=up)
    ctx.assume(lo < up)
    vals, senss = {}, {}
    sens = {}
    for kk in b.bound_varkeys:
        i = kk.name
        vals[kk] = ctx.pos("v"+i)
    for i, kk in enumerate(b.bound_varkeys):
        for c in b["variable bounds"][i]:
            d = "upper" if kk in c.left.vks and c.oper == "<=" or \
                kk in c.right.vks and c.oper == ">=" else "lower"
            if ctx.boolean("has"+kk.name):
                sens[kk, d] = senss[c] = ctx.real("s%s%s" % (kk.name, d))
    result = {"variables": KeyDict(vals), "freevariables": KeyDict(vals),
              "sensitivities": {"constraints": senss}}
    if ctx.boolean("earlier"):
        result["boundedness"] = {"something": {1}}
    b.process_result(result)
    out = result["boundedness"]
    names = set(out)
    lows = [n for n in names if "lower" in n]
    ups = [n for n in names if "upper" in n]
    for kk in b.bound_varkeys:
        for d, labels in (("lower", lows), ("upper", ups)):
            s = sens.get((kk, d), 0)
            hit = any(kk in out[n] for n in labels if n.startswith("sensitive"))
            if ctx.holds(s >= 1e-7):
                ctx.check(hit, "sensitivity to a bound is reported")
            else:
                ctx.check(not hit, "no other sensitivity is reported")
            v = vals[kk]
            ratio = v/lo if d == "lower" else up/v
            near = any(kk in out[n] for n in labels if n.startswith("value near"))
            if ctx.holds(ctx.log(ratio) <= 3):
                ctx.check(near, "a value near a bound is reported")
            else:
                ctx.check(not near, "no other value is reported")
    ctx.check(len(lows) <= 2 and len(ups) <= 2, "nothing else")
    if "something" in names:
        ctx.check(out["something"] == {1}, "earlier reports are kept")


def h_several(ctx):
    "sets with the same bounds, inside others"
    x, y, z = X("x"), X("y"), X("z")
    lo, up = ctx.pos("lo"), ctx.pos("up")
    ctx.assume(lo*1e4 < up)
    kw = {"lower": lo, "upper": up}
    how = ctx.choice("how", 3)
    b1, b2 = Bounded([x >= 1], **kw), Bounded([y >= z], **kw)
    cs = [ConstraintSet([b1, b2]), Model(x, [b2, {"one": b1}]), ConstraintSet([b1, [b2]])][how]
    vals, senss, want = {}, {}, {}
    for k in (x.key, y.key, z.key):
        vals[k] = ctx.pos("v"+k.name)
        ctx.assume(vals[k] >= lo)
        ctx.assume(vals[k] <= up)
    result = {"variables": KeyDict(vals), "freevariables": KeyDict(vals),
              "sensitivities": {"constraints": senss}}
    cs.process_result(result)
    out = result["boundedness"]
    for k, v in vals.items():
        for d, ratio in (("lower", v/lo), ("upper", up/v)):
            near = any(k in vks for n, vks in out.items() if "near" in n and d in n)
            ctx.check(near == ctx.holds(ctx.log(ratio) <= 3), "each set's variables are reported")
    ctx.check(not any("sensitive" in n for n in out), "and no sensitivities")


def tight_cons(ctx, xs, vs):
    "[(constraint, left, right)]"
    x, y = xs
    vx, vy = vs
    c, d = ctx.pos("c"), ctx.pos("d")
    kind = ctx.choice("kind", 6)
    if kind == 0:
        return c*x + d <= c*y, [(c*vy, c*vx + d)]  # reflected: c*y >= c*x + d
    if kind == 1:
        return y >= c*x + d, [(vy, c*vx + d)]
    if kind == 2:
        return c*x == y, [(vy, c*vx)]          # == prefers its Variable
    if kind == 3:
        v = gpkit.NomialArray([x, y])
        return v >= c, [(vx, c), (vy, c)]
    with SignomialsEnabled():
        if kind == 4:
            return c*x + y >= x*y + d, [(c*vx + vy, vx*vy + d)]
        # a side that evaluates below zero
        return y >= c*x - d, [(c*vx - d, vy)]      # written the other way around


def h_tight(ctx):
    xs, vs, point = setup(ctx, "xy")
    con, sides = tight_cons(ctx, xs, vs)
    other = xs[0] <= ctx.pos("o")
    rt = ctx.pos("rt")
    given = ctx.boolean("given")
    tol = rt if given else 1e-3
    where = ctx.choice("where", 3)
    kw = {"reltol": rt} if given else {}
    if where == 0:
        t, cs = Tight([con], **kw), None
        cs = t
    elif where == 1:
        t = Tight({"name": con}, **kw)
        cs = ConstraintSet([other, t])
    else:
        t = Tight(ConstraintSet([[con]]), **kw)
        cs = Model(xs[0], [t, other])
    for l, r in sides:
        ctx.assume(r != 0)
    result = {"variables": KeyDict(point), "freevariables": KeyDict(point)}
    signomials = ctx.boolean("in scope")
    if signomials:
        with SignomialsEnabled():
            cs.process_result(result)
    else:
        cs.process_result(result)
    got = warned(result, "Unexpectedly Loose Constraints")
    flat = list(t.flat())
    ctx.check(len(flat) == len(sides), "tight: the constraints")
    for c, (l, r) in zip(flat, sides):
        hit = sum(c is g for g in got)
        diff = abs(1 - l/r)
        if ctx.holds(diff >= tol):
            ctx.check(hit == 1, "tight: a loose constraint is reported")
            if hit:
                ctx.eq(c.tightvalues[0], l, "tight: left value")
                ctx.eq(c.tightvalues[2], r, "tight: right value")
                ctx.eq(c.rel_diff, diff, "tight: relative difference")
        else:
            ctx.check(hit == 0, "tight: no other is reported")
    ctx.check(len(got) <= len(sides), "tight: nothing else is reported")
    ctx.check(not SignomialsEnabled, "tight: scope restored")
    want = list(ConstraintSet([con]).flat())
    ctx.check([a is b for a, b in zip(want, t.flat())] == [True]*len(want),
              "tight: the constraints are unchanged")


def h_tight_units(ctx):
    x, y = X("x", "ft"), X("y", "m")
    vx, vy, c = ctx.pos("x"), ctx.pos("y"), ctx.pos("c")
    con = (y >= c*x) if ctx.boolean("ge") else (c*x <= y)
    t = Tight([con])
    result = {"variables": KeyDict({x.key: vx, y.key: vy}),
              "freevariables": KeyDict({})}
    t.process_result(result)
    got = warned(result, "Unexpectedly Loose Constraints")
    l, r = c*vx*FT, vy
    if con.oper == ">=":
        l, r = r, l
    if ctx.holds(abs(1 - l/r) >= 1e-3):
        ctx.check(got == [con], "tight units: reported")
        lv, _, rv = con.tightvalues
        ctx.eq(lv*r, rv*l, "tight units: in the same units")
    else:
        ctx.check(not got, "tight units: not reported")


FT = 0.3048


def h_loose(ctx):
    xs, vs, point = setup(ctx, "xy")
    con, sides = tight_cons(ctx, xs, vs)
    other = xs[0] <= ctx.pos("o")
    st = ctx.pos("st")
    given = ctx.boolean("given")
    tol = st if given else 1e-5
    kw = {"senstol": st} if given else {}
    where = ctx.choice("where", 3)
    if where == 0:
        cs = t = Loose([con], **kw)
    elif where == 1:
        t = Loose({"name": con}, **kw)
        cs = ConstraintSet([other, t])
    else:
        t = Loose(ConstraintSet([[con]]), **kw)
        cs = Model(xs[0], [t, other])
    senss = {other: ctx.real("so")}
    sens = []
    for i, c in enumerate(t.flat()):
        if ctx.boolean("has%d" % i):
            senss[c] = ctx.real("s%d" % i)
        sens.append(senss.get(c, 0))
    result = {"variables": KeyDict(point), "freevariables": KeyDict(point),
              "sensitivities": {"constraints": senss}}
    cs.process_result(result)
    got = warned(result, "Unexpectedly Tight Constraints")
    for c, s in zip(t.flat(), sens):
        hit = sum(c is g for g in got)
        if ctx.holds(s >= tol):
            ctx.check(hit == 1, "loose: a tight constraint is reported")
            ctx.eq(c.relax_sensitivity, s, "loose: its sensitivity")
        else:
            ctx.check(hit == 0, "loose: no other is reported")
    ctx.check(len(got) <= len(sens), "loose: nothing else is reported")


HARNESSES = [
    Harness("bounds", h_bounds, "3 free variables (one with units, a vector), any eps, lower and upper"),
    Harness("boundaries", h_boundaries, "2 variables, any values, bounds and sensitivities",
            max_paths=20000),
    Harness("several", h_several, "2 sets with the same bounds and 3 variables, in 3 containers"),
    Harness("tight", h_tight, "6 kinds of constraint in 3 nestings, any point and tolerance"),
    Harness("tight_units", h_tight_units, "ft against m"),
    Harness("loose", h_loose, "6 kinds of constraint in 3 nestings, any sensitivities and tolerance"),
]
