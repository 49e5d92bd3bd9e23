"Solutions are verified before being returned"
import contextlib
import io
import gpkit
from .gplib import *
from gpkit import Model
from gpkit.constraints.gp import GeometricProgram
from gpkit.exceptions import Infeasible


def verdict(ctx, raised, conds, tag):
    """conds: (name, [comfortably within tolerance], [[clearly outside]...]).
    accepted if all are within, complained about if any is clearly outside"""
    if raised:
        ctx.refute([c for _, ok, _ in conds for c in ok], tag+": a verified answer is accepted")
    else:
        for name, _, bads in conds:
            for bad in bads:
                ctx.refute(bad, tag+": "+name+" is noticed")


def close(a, b, tol):
    "conditions for two positive numbers' being near, or clearly apart"
    return [a-b <= 0.9*tol*b, b-a <= 0.9*tol*a], [[a-b >= 2.1*tol*a], [b-a >= 2.1*tol*b]]


def within(v, lim, slack=1.1):
    "|v| <= lim"
    return [v <= 0.9*lim, -0.9*lim <= v], [[v >= slack*lim], [v <= -slack*lim]]


def conditions(ctx, gp, cost, byvk, nu, tol, gap=True):
    "the conditions for an answer, from the program as given to solvers"
    out = []

    def add(name, okbad):
        out.append((name,) + tuple(okbad))
    vals = []
    for c, exp in zip(gp.cs, gp.exps):
        v = c
        for vk, e in exp.items():
            v = v*byvk[vk]**e
        vals.append(v)
    byposy = [[i for i in range(len(gp.cs)) if gp.p_idxs[i] == p] for p in range(len(gp.k))]
    add("a wrong cost", close(sum(vals[i] for i in byposy[0]), cost, tol))
    for ids in byposy[1:]:
        s = sum(vals[i] for i in ids)
        add("a violated constraint", ([s <= 1+0.9*tol], [[s >= 1+1.1*tol]]))
    s = sum(nu[i] for i in byposy[0])
    add("duals of the objective not summing to one", within(s-1, tol, 2.3))
    for v in nu:
        add("a negative dual", ([v >= 0], [[v <= -tol/10]]))
    for vk in gp.varlocs:
        g = sum(v*exp.get(vk, 0) for v, exp in zip(nu, gp.exps))
        add("nonzero stationarity", within(g, tol))
    if gap:
        dual = 0
        for ids in byposy:
            la = sum(nu[i] for i in ids)
            for i in ids:
                if ctx.holds(nu[i] > 0):
                    dual = dual + nu[i]*(ctx.log(gp.cs[i]) - ctx.log(nu[i]/la))
        add("a duality gap", close(ctx.exp(dual), cost, tol))
    return out


def run(ctx, gp, cost, byvk, nu, tol, tag, gap=True):
    primal = arr(ctx, [ctx.log(byvk[vk]) for vk in gp.varlocs])
    out = {"primal": primal, "nu": arr(ctx, nu), "objective": cost}
    la, gp.nu_by_posy = gp._generate_nula(out)
    try:
        gp.check_solution(cost, primal, out["nu"], la, tol)
        raised = False
    except Infeasible:
        raised = True
    verdict(ctx, raised, conditions(ctx, gp, cost, byvk, nu, tol, gap), tag)
    return raised


def small(which, c):
    x, y = X("x"), X("y")
    if which == 0:
        m = Model(c[0]*x, [c[1]/x <= 1])
    elif which == 1:
        h = c[2] if len(c) > 2 else 1
        m = Model(x + c[0]*y, [c[1]/x**h/y**(1-h if len(c) > 2 else 1) <= 1])
    elif which == 2:
        m = Model(x, [c[0]/x + c[1]*y/x <= 1, c[2]/y <= 1])
    else:
        m = Model(c[2]*x*y, [c[0]*x == y, c[1]/x <= 1])
    return m.gp(checkbounds=False)


def valued(ctx, which):
    "a program at a point, by the values its terms have there"
    vx, vy = ctx.pos("vx"), ctx.pos("vy")
    m = [ctx.pos("m%d" % i) for i in range(3)]
    c = [[m[0]/vx, m[1]*vx], [m[0]/vy, m[1]*vx*vy], [m[0]*vx, m[1]*vx/vy, m[2]*vy],
         [m[0]*vy/vx, m[1]*vx, m[2]/vx/vy]][which]
    gp = small(which, c)
    return gp, {vk: {"x": vx, "y": vy}[vk.name] for vk in gp.varlocs}


def h_any(ctx):
    "any primal and dual answer whatsoever; small programs"
    which = ctx.choice("which", 4)
    gp, byvk = valued(ctx, which)
    negative = 0 if which == 1 else ctx.choice("negative", 1+len(gp.cs))
    nu = [ctx.real("rnu%d" % i) if i == negative-1 else ctx.pos("nu%d" % i) for i in range(len(gp.cs))]
    if negative:
        ctx.assume(nu[negative-1] < 0)
        ctx.assume(sum(nu[:gp.k[0]]) + 1 > 0)
    cost = ctx.pos("cost")
    ctx.assume(cost > 1e-6)
    run(ctx, gp, cost, byvk, nu, 1e-3, "any", gap=not negative)


def optimum(ctx, which):
    "program, cost, point and duals of its exact optimum"
    a, b = ctx.pos("a"), ctx.pos("b")
    name = lambda gp, **v: {vk: v[vk.name] for vk in gp.varlocs}
    if which == 0:
        gp = small(0, [a, b])
        return gp, a*b, name(gp, x=b), [1, 1]
    if which == 1:
        h = ctx.pos("h")
        ctx.assume(h > 1/8)
        ctx.assume(h < 7/8)
        vx, vy = h*a, (1-h)*a/b
        gp = small(1, [b, vx**h*vy**(1-h), h])
        x = [vk for vk in gp.varlocs if vk.name == "x"][0]
        return gp, a, name(gp, x=vx, y=vy), [h if x in gp.exps[i] else 1-h for i in (0, 1)] + [1]
    if which == 2:
        s = ctx.pos("s")
        ctx.assume(s < 1)
        gp = small(2, [a*(1-s), a*s/b, b])
        y = [vk for vk in gp.varlocs if vk.name == "y"][0]
        return gp, a, name(gp, x=a, y=b), [1] + [s if y in gp.exps[i] else 1-s for i in (1, 2)] + [s]
    gp = small(3, [a, b, 1])
    extra = [0.125, 2][ctx.choice("extra", 2)]
    y = [vk for vk in gp.varlocs if vk.name == "y"][0]
    # minimising x*y with c0*x == y: the half keeping y up outweighs the other by one
    ys = [e.get(y, 0) for e in gp.exps]
    nu = [1] + ([extra, 1+extra] if ys[2] < 0 else [1+extra, extra]) + [2]
    return gp, a*b*b, name(gp, x=b, y=a*b), nu


def h_optimum(ctx):
    "the exact optimum, and departures from it"
    which = ctx.choice("which", 4)
    gp, cost, byvk, nu = optimum(ctx, which)
    ctx.assume(cost > 1e-6)
    tol = 1e-3
    how = ctx.choice("how", 6)
    # departures are either within the tolerances or well beyond them
    big = ctx.choice("big", 3 if how < 3 else 2)
    d = [1/32, 1/4, 1/65536][big] * (1 if ctx.boolean("sign") else -1)
    big = big < 2
    x = [vk for vk in byvk if vk.name == "x"][0]
    if how == 1:
        cost = cost*(1+d)
    elif how == 2:
        byvk[x] = byvk[x]*(1+d)
    elif how == 3:
        nu[0] = nu[0] + d
    elif how == 4:
        nu[-1] = nu[-1] + d
        if which == 2:
            ctx.assume(nu[-1] > 0)
    elif how == 5:
        nu = [v*(1+d) for v in nu]
    raised = run(ctx, gp, cost, byvk, nu, tol, "optimum", gap=how < 3)
    if how == 0:
        ctx.check(not raised, "an exact optimum is accepted")
    elif big:
        ctx.check(raised, "a departure from the optimum is noticed")


def h_zero(ctx):
    "dual values that are zero or negligibly negative are not a fault"
    x, y = X("x"), X("y")
    c0, c1 = ctx.pos("c0"), 1
    # the term in y is negligible, and the answer says its dual value is nothing
    m = Model(x, [c0/x + c1*y/x <= 1, 1e-12/y <= 1])
    ctx.assume(c0 > 1e-2)
    gp = m.gp(checkbounds=False)
    byvk = {vk: {"x": c0, "y": 1e-12}[vk.name] for vk in gp.varlocs}
    # other values make exponents the solver cannot handle: run on floats only
    how = ctx.choice("how", 4)
    if not ctx.concrete:
        ctx.check(True, "zero")
        how = 0
    eps = [0, -1e-9, 1e-12, 0][how]
    v = {vk.name: vk for vk in gp.varlocs}
    nu = [1] + [eps if v["y"] in gp.exps[i] else 1-eps for i in (1, 2)] + [max(eps, 0)]
    primal = arr(ctx, [ctx.log(byvk[vk]) for vk in gp.varlocs])
    if how == 3:  # not a number in a variable that isn't in the cost
        primal = arr(ctx, [ctx.log(byvk[vk]) if vk.name == "x" else float("nan") for vk in gp.varlocs])
    out = {"primal": primal, "nu": arr(ctx, nu), "objective": c0}
    la, gp.nu_by_posy = gp._generate_nula(out)
    try:
        gp.check_solution(c0, primal, out["nu"], la, 1e-3)
        ctx.check(how != 3, "an undefined primal value is noticed")
    except Infeasible:
        if how == 3:
            return
        ctx.check(False, "negligible dual values are accepted")


def h_solve(ctx):
    "through solve: what is returned, and whether it is complained about"
    gp, byvk = valued(ctx, ctx.choice("which", 2))
    nu = [ctx.pos("nu%d" % i) for i in range(len(gp.cs))]
    if gp.k[0] == 1:
        nu[0] = 1
    cost = ctx.pos("cost")
    ctx.assume(cost > 1e-6)
    name, tol = [("cvxopt", 1e-3), ("mosek_cli", 1e-4), ("other", 1e-5)][ctx.choice("name", 3)]

    def solver(*, c, A, **_):
        return dict(status="optimal", objective=cost, nu=arr(ctx, nu),
                    primal=arr(ctx, [ctx.log(byvk[vk]) for vk in gp.varlocs]))
    solver.__name__ = name
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = gp.solve(solver, verbosity=0)
    verdict(ctx, "Solution check warning" in buf.getvalue(),
            conditions(ctx, gp, cost, byvk, nu, tol), "solve")
    ctx.eq(res["cost"], cost, "the answer's cost is returned")
    for vk, v in byvk.items():
        ctx.eq(res["variables"][vk], v, "the answer's values are returned")


HARNESSES = [
    Harness("any", h_any, "4 programs of up to 4 terms; any primal point and real duals; 2 tolerances", max_paths=8000),
    Harness("optimum", h_optimum, "4 programs' exact optima and 5 kinds of departure"),
    Harness("zero", h_zero, "dual values 0, -1e-9, 1e-12; NaN primal value (floats only)"),
    Harness("solve", h_solve, "3 programs, 3 solvers' tolerances, any primal point and positive duals", max_paths=8000),
]
