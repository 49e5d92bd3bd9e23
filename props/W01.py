"Sweeps solve every grid point once and keep rows matched"
import contextlib
import io
import warnings
import gpkit.constraints.gp as gpmod
from .gplib import *
from gpkit import Model
from gpkit.constraints.loose import Loose
from gpkit.exceptions import PrimalInfeasible, DualInfeasible, UnknownInfeasible

NOTE = "every solve of the sweep is answered with its own arbitrary symbolic numbers, or fails"


class Sweep:
    "runs a sweep, recording each problem and what it was answered"
    def __init__(self, ctx, m, free, fails=(), error=None, slack=None):
        self.ctx, self.m, self.free, self.fails, self.error = ctx, m, free, set(fails), error
        self.calls, self.tries, self.slack = [], 0, slack

    def run(self, local=False, **kw):
        def solver(*, c, A, k, p_idxs, meq_idxs, **_):
            ctx, t = self.ctx, self.tries
            self.tries += 1
            if t in self.fails:
                raise self.error
            objective = ctx.pos("obj%d" % t)
            point = {n: ctx.pos("%s_%d" % (n, t)) for n in self.free}
            nus = []
            for p, size in enumerate(k):
                nus += [1.0/size] if size == 1 and p == 0 else [ctx.pos("nu%d_%d_%d" % (t, p, i)) for i in range(size)]
            prog = self.current()
            primal = [ctx.log(point[vk.name]) for vk in prog.varlocs]
            self.calls.append(dict(t=t, c=list(c), k=list(k), obj=objective, point=point, nu=nus,
                                   rows=[dict(e) for e in prog.exps], p_idxs=list(p_idxs)))
            return dict(objective=objective, primal=arr(ctx, primal), nu=arr(ctx, nus))
        real = gpmod.GeometricProgram.check_solution
        gpmod.GeometricProgram.check_solution = lambda *a, **k: None
        self.error_seen = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                kw.setdefault("verbosity", 0)
                try:
                    return (self.m.localsolve if local else self.m.solve)(solver, **kw)
                except RuntimeWarning as e:
                    self.error_seen = e
        finally:
            gpmod.GeometricProgram.check_solution = real

    def current(self):
        return self.m.program[-1]


def row(sol, v, i, n, idx=None):
    "entry i of column v"
    col = sol["variables"][v] if v in sol["variables"] else None
    if n == 1:
        return col
    return col[i]


def distinct(ctx, vals):
    for a, b in zip(vals, vals[1:]):
        ctx.assume(b > a)


def which(ctx, v, vals, tag):
    "index of v among distinct vals"
    for i, w in enumerate(vals):
        if ctx.holds(v == w) if not ctx.concrete else abs(v-w) <= 1e-9*abs(w):
            return i
    ctx.check(False, tag)


def grid_model(ctx):
    x, k = X("x"), X("k")
    a, b = X("s"), X("B")       # printed order differs from creation order
    m = Model(x, [x >= k*a*b**2])
    k0 = ctx.pos("k")
    m.substitutions[k] = k0
    return m, x, k, a, b, k0


def check_rows(ctx, run, sol, cols, coeff, x, tag):
    """cols: {name: variable}; coeff(values) -> the constraint's coefficient"""
    n = len(run.calls)
    ctx.check(len(sol) == n, tag+": a row per solve")
    seen = []
    for i, call in enumerate(run.calls):
        vals = {name: row(sol, v, i, n) for name, v in cols.items()}
        ctx.eq(call["c"][-1], coeff(vals), tag+": inputs are those of the row's solve")
        ctx.eq(row(sol, x, i, n), call["point"]["x"], tag+": variables are the row's")
        ctx.eq(sol["cost"][i] if n > 1 else sol["cost"], call["obj"], tag+": costs are the row's")
        fv = sol["freevariables"][x]
        ctx.eq(fv[i] if n > 1 else fv, call["point"]["x"], tag+": free variables are the row's")
        (con, cs), = sol["sensitivities"]["constraints"].items()
        ctx.eq(cs[i] if n > 1 else cs, call["nu"][-1], tag+": constraint sensitivities are the row's")
        seen.append(vals)
    return seen


def h_grid(ctx, most=2):
    "two swept variables"
    m, x, k, a, b, k0 = grid_model(ctx)
    na, nb = most, 1 + ctx.choice("nb", most)
    avals = [ctx.pos("a%d" % i) for i in range(na)]
    bvals = [ctx.pos("b%d" % i) for i in range(nb)]
    distinct(ctx, avals)
    distinct(ctx, bvals)
    first = ctx.boolean("first")
    if first:
        m.substitutions.update({a: ("sweep", avals), b: ("sweep", bvals)})
    else:
        m.substitutions.update({b: ("sweep", bvals), a: ("sweep", avals)})
    run = Sweep(ctx, m, ["x"])
    sol = run.run()
    ctx.check(run.tries == na*nb, "grid: as many solves as points")
    rows = check_rows(ctx, run, sol, dict(a=a, b=b, k=k), lambda v: v["k"]*v["a"]*v["b"]**2, x, "grid")
    at = set()
    for v in rows:
        ctx.eq(v["k"], k0, "grid: other constants are the model's")
        at.add((which(ctx, v["a"], avals, "grid: a value of the grid"),
                which(ctx, v["b"], bvals, "grid: a value of the grid")))
    ctx.check(len(at) == na*nb, "grid: each point once")
    ctx.check(len(m.program) == na*nb, "grid: each program is kept")
    for prog, v in zip(m.program, rows):
        ctx.eq(prog.substitutions[a.key], v["a"], "grid: each program keeps its constants")
        ctx.eq(prog.substitutions[b.key], v["b"], "grid: each program keeps its constants")
    ctx.check(set(sol["sweepvariables"]) == {a.key, b.key} and set(sol["constants"]) == {k.key},
              "grid: swept variables are told from constants")
    for i, v in enumerate(rows):
        ctx.eq(sol["sweepvariables"][a][i], v["a"], "grid: swept columns")
        ctx.eq(sol["sweepvariables"][b][i], v["b"], "grid: swept columns")
    ctx.eq(sol["constants"][k], k0, "grid: constant column")


def h_three(ctx):
    "three swept variables"
    x = X("x")
    s = [X("c"), X("A"), X("b")]
    m = Model(x, [x >= s[0]*s[1]**2*s[2]**3])
    vals = [[ctx.pos("v%d%d" % (i, j)) for j in range(2)] for i in range(3)]
    for v in vals:
        distinct(ctx, v)
    m.substitutions.update({s[i]: ("sweep", vals[i]) for i in range(3)})
    run = Sweep(ctx, m, ["x"])
    sol = run.run()
    ctx.check(run.tries == 8, "three: as many solves as points")
    rows = check_rows(ctx, run, sol, {str(i): v for i, v in enumerate(s)},
                      lambda v: v["0"]*v["1"]**2*v["2"]**3, x, "three")
    at = {tuple(which(ctx, v[str(i)], vals[i], "three: a value of the grid") for i in range(3)) for v in rows}
    ctx.check(len(at) == 8, "three: each point once")


def h_failures(ctx):
    "any subset of the points fails"
    m, x, k, a, b, k0 = grid_model(ctx)
    n = 3
    m.substitutions[b] = b0 = ctx.pos("b")
    vals = [ctx.pos("a%d" % i) for i in range(n)]
    distinct(ctx, vals)
    m.substitutions[a] = ("sweep", vals)
    fails = [i for i in range(n) if ctx.boolean("fail%d" % i)]
    error = [PrimalInfeasible("p"), DualInfeasible("d"), UnknownInfeasible("u"),
             ValueError("boom")][ctx.choice("error", 4)]
    skip = ctx.boolean("skip")
    run = Sweep(ctx, m, ["x"], fails, error)
    sol = run.run(skipsweepfailures=skip)
    if fails and not skip:
        ctx.check(sol is None and run.error_seen is not None, "failures: not skipped unless asked")
        ctx.check(run.tries == fails[0]+1, "failures: the sweep halts there")
        ctx.check(len(m.program) == fails[0]+1, "failures: progress is kept")
        return
    if len(fails) == n:
        ctx.check(sol is None and run.error_seen is not None, "failures: nothing solved is an error")
        return
    ctx.check(run.error_seen is None and run.tries == n, "failures: the rest are solved")
    rows = check_rows(ctx, run, sol, dict(a=a, b=b, k=k), lambda v: v["k"]*v["a"]*v["b"]**2, x, "failures")
    left = [v for i, v in enumerate(vals) if i not in fails]
    for r, want in zip(rows, left):
        ctx.eq(r["a"], want, "failures: the failed points are absent")
        ctx.eq(r["b"], b0, "failures: constants")
    sv = sol["sweepvariables"][a]
    for i, want in enumerate(left):
        ctx.eq(sv[i] if len(left) > 1 else sv, want, "failures: absent from the swept column too")


def h_linked(ctx):
    "constants linked to swept ones"
    x, a, l, l2, k = X("x"), X("a"), X("l"), X("L"), X("k")
    m = Model(x, [x >= a*l*l2*k])
    vals = [ctx.pos("a%d" % i) for i in range(3)]
    k0 = ctx.pos("k")
    kind = ctx.choice("kind", 4)
    f = [lambda c: 2*c[a], lambda c: c[k]*c[a]**2, lambda c: c[k], lambda c: 3*c[k]**2][kind]
    fv = [lambda s: 2*s, lambda s: k0*s**2, lambda s: k0, lambda s: 3*k0**2][kind]
    m.substitutions.update({a: ("sweep", vals), l: f, l2: lambda c: c[l]+c[a], k: k0})
    run = Sweep(ctx, m, ["x"], [1] if ctx.boolean("fail") else [], PrimalInfeasible("p"))
    sol = run.run(skipsweepfailures=True)
    rows = check_rows(ctx, run, sol, dict(a=a, l=l, L=l2, k=k),
                      lambda v: v["k"]*v["a"]*v["l"]*v["L"], x, "linked")
    left = [v for i, v in enumerate(vals) if i not in run.fails]
    for i, (r, s) in enumerate(zip(rows, left)):
        ctx.eq(r["a"], s, "linked: swept")
        ctx.eq(r["l"], fv(s), "linked: function of this row's inputs")
        ctx.eq(r["L"], fv(s)+s, "linked: chained function of this row's inputs")
        for v, name in ((l, "l"), (l2, "L"), (k, "k")):
            col = sol["constants"][v]
            ctx.eq(col[i] if getattr(col, "shape", ()) else col, r[name], "linked: constant columns agree")


def h_linkvec(ctx):
    "vectors linked to swept and to constant inputs"
    x, a, k = X("x"), X("a"), X("k")
    kind = ctx.choice("kind", 8)
    f = [lambda c: [c[k], 2*c[a]], lambda c: [c[a]*c[k], 3*c[k]], lambda c: [c[k], 2*c[k]],
         lambda c: [c[a], c[a]**2], lambda c: [2*c[k], c[k]*c[a]**2],
         lambda c: [c[t[0]], c[t[1]]*c[k]], lambda c: [c[t[1]]*c[a], c[t[0]]**2],
         lambda c: [c[k], c[t[0]]]][kind]
    fv = [lambda s: [k0, 2*s], lambda s: [s*k0, 3*k0], lambda s: [k0, 2*k0],
          lambda s: [s, s**2], lambda s: [2*k0, k0*s**2],
          lambda s: [k0*s, s**2*k0], lambda s: [s**3, (k0*s)**2], lambda s: [k0, k0*s]][kind]
    # of another linked vector, which comes before or after it
    t = VectorVariable(2, "km"[ctx.choice("first", 2) if kind > 4 else 0] + "t")
    how = ctx.choice("how", 2)
    if how == 0:
        l = VectorVariable(2, "l", f)
        m = Model(x, [x >= a*k*l[0]*l[1]**2])
    else:
        l = VectorVariable(2, "l")
        m = Model(x, [x >= a*k*l[0]*l[1]**2])
        m.substitutions.update({l[0]: lambda c: f(c)[0], l[1]: lambda c: f(c)[1]})
    if kind > 4:
        m = Model(x, [x >= t[0]*t[1], m])
        m.substitutions.update({t[0]: lambda c: c[k]*c[a], t[1]: lambda c: c[a]**2})
    k0 = ctx.pos("k")
    vals = [ctx.pos("a%d" % i) for i in range(3)]
    m.substitutions.update({a: ("sweep", vals), k: k0})
    run = Sweep(ctx, m, ["x"], [0] if ctx.boolean("fail") else [], PrimalInfeasible("p"))
    sol = run.run(skipsweepfailures=True)
    left = [v for i, v in enumerate(vals) if i not in run.fails]
    ctx.check(len(sol) == len(left) == len(run.calls), "linkvec: a row per solve")
    for i, (call, s) in enumerate(zip(run.calls, left)):
        got = sol["variables"][l][i]
        ctx.eq(sol["variables"][a][i], s, "linkvec: swept")
        ctx.eq(call["c"][-1], s*k0*fv(s)[0]*fv(s)[1]**2, "linkvec: problem of the row")
        for j in range(2):
            ctx.eq(got[j], fv(s)[j], "linkvec: function of this row's inputs")
            col = sol["constants"][l]
            ctx.eq(col[i][j] if col.ndim > 1 else col[j], fv(s)[j],
                   "linkvec: constant columns agree")


def h_vector(ctx):
    "whole vectors or their elements swept, beside vector constants"
    x = X("x")
    v, w = VectorVariable(2, "v"), VectorVariable(2, "w")
    m = Model(x, [x >= v[0]*v[1]**2*w[0]*w[1]**3])
    w0 = [ctx.pos("w0"), ctx.pos("w1")]
    m.substitutions[w] = arr(ctx, w0)
    s = [ctx.pos("s%d" % i) for i in range(4)]
    kind = ctx.choice("kind", 4)
    if kind == 0:           # the first element
        m.substitutions.update({v[0]: ("sweep", [s[0], s[1]]), v[1]: s[2]})
        want = [(s[0], s[2]), (s[1], s[2])]
    elif kind == 1:         # both
        m.substitutions.update({v[0]: ("sweep", [s[0], s[1]]), v[1]: ("sweep", [s[2], s[3]])})
        want = [(s[0], s[2]), (s[1], s[2]), (s[0], s[3]), (s[1], s[3])]
    elif kind == 2:         # set first, swept after
        m.substitutions[v] = arr(ctx, [s[3], s[2]])
        m.substitutions.update({v[0]: ("sweep", [s[0], s[1]])})
        want = [(s[0], s[2]), (s[1], s[2])]
    else:
        m.substitutions.update({v: [s[0], ("sweep", [s[2], s[3]])]})
        want = [(s[0], s[2]), (s[0], s[3])]
    n = len(want)
    run = Sweep(ctx, m, ["x"])
    sol = run.run()
    ctx.check(run.tries == n and len(sol) == n, "vector: as many solves as points")
    got = []
    for i, call in enumerate(run.calls):
        vi, wi = sol["variables"][v][i], sol["variables"][w][i]
        ctx.eq(call["c"][-1], vi[0]*vi[1]**2*wi[0]*wi[1]**3, "vector: inputs are those of the row's solve")
        for j in range(2):
            ctx.eq(wi[j], w0[j], "vector: constants")
            ctx.eq(sol["constants"][w][j], w0[j], "vector: constant column")
            ctx.eq(sol["sweepvariables"][v][i][j], vi[j], "vector: swept columns")
        ctx.eq(sol["cost"][i], call["obj"], "vector: costs are the row's")
        ctx.eq(sol["variables"][x][i], call["point"]["x"], "vector: variables are the row's")
        got.append((vi[0], vi[1]))
    if kind == 1:
        distinct(ctx, s[:2])
        distinct(ctx, s[2:])
    # each wanted point once, in any order
    for p in want:
        hits = 0
        for g in got:
            if ctx.holds(g[0] == p[0]) and ctx.holds(g[1] == p[1]):
                hits += 1
        same = sum(1 for q in want if ctx.holds(q[0] == p[0]) and ctx.holds(q[1] == p[1]))
        ctx.check(hits == same, "vector: each point once")


def h_forms(ctx):
    "ways to give the swept values"
    x, a = X("x", "m"), X("a", "m")
    m = Model(x, [x >= a])
    s = [ctx.pos("s%d" % i) for i in range(3)]
    kind = ctx.choice("kind", 6)
    want = s
    if kind == 0:
        m.substitutions[a] = ("sweep", s)
    elif kind == 1:
        m.substitutions[a] = ("sweep", tuple(s))
    elif kind == 2:
        m.substitutions[a] = ("sweep", arr(ctx, s))
    elif kind == 3:
        m.substitutions[a] = ("sweep", [s[0]*gpkit.ureg.cm, s[1]*gpkit.ureg.m, s[2]*gpkit.ureg.km])
        want = [s[0]/100, s[1], s[2]*1000]
    elif kind == 4:
        a = Variable("a", ("sweep", s), "m")
        m = Model(x, [x >= a])
    else:
        m = Model(x, [x >= a], {a: ("sweep", [1, 2, 4])})
        want = [1, 2, 4]
    run = Sweep(ctx, m, ["x"])
    sol = run.run()
    ctx.check(len(sol) == 3, "forms: as many rows as values")
    for i, call in enumerate(run.calls):
        ctx.eq(sol["variables"][a][i], want[i], "forms: the values given, in the variable's units")
        ctx.eq(call["c"][-1], want[i], "forms: used in the row's solve")
        ctx.eq(sol["cost"][i], call["obj"], "forms: costs are the row's")


def h_absent(ctx):
    "a constraint that some points' problems do not have, at any position"
    x, y, a = X("x"), X("y"), X("a")
    c1, c2 = x >= a*y, x >= 0.5
    c3 = y >= 1
    m = Model(x*y, [c1, c2, c3])
    n = 3
    zero = [ctx.boolean("zero%d" % i) for i in range(n)]
    vals = [0.0 if z else ctx.pos("a%d" % i) for i, z in enumerate(zero)]
    m.substitutions[a] = ("sweep", vals)
    run = Sweep(ctx, m, ["x", "y"])
    sol = run.run()
    ctx.check(len(sol) == n, "absent: a row per point")
    for i, call in enumerate(run.calls):
        ctx.eq(sol["variables"][a][i], vals[i], "absent: inputs")
        for v in (x, y):
            ctx.eq(sol["variables"][v][i], call["point"][v.key.name], "absent: variables")
        nus = call["nu"][1:]
        cons = [c2, c3] if zero[i] else [c1, c2, c3]
        for con, nu in zip(cons, nus):
            ctx.eq(sol["sensitivities"]["constraints"][con][i], nu, "absent: constraint sensitivities")
        if zero[i] and c1 in sol["sensitivities"]["constraints"]:
            s = sol["sensitivities"]["constraints"][c1][i]
            ctx.check(s != s or s == 0, "absent: no sensitivity where there was no constraint")
    for con, col in sol["sensitivities"]["constraints"].items():
        ctx.check(len(col) == n, "absent: columns are as long as the sweep")
    for vk, col in sol["sensitivities"]["variables"].items():
        ctx.check(len(col) == n, "absent: columns are as long as the sweep")


def h_warnings(ctx):
    "warnings that only some points give"
    x, a = X("x"), X("a")
    loose = x >= 5
    m = Model(x, [x >= a, Loose([loose])])
    n = 3
    warn = [ctx.boolean("warn%d" % i) for i in range(n)]
    vals = [ctx.pos("a%d" % i) for i in range(n)]
    m.substitutions[a] = ("sweep", vals)
    calls = []

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        t = len(calls)
        calls.append(1)
        return dict(objective=1.0+t, primal=arr(ctx, [0.5*t]),
                    nu=arr(ctx, [1., 0.0, 1.0] if warn[t] else [1., 1., 0.0]))
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sol = m.solve(solver, verbosity=0)
            text = sol.table(tables=["warnings"])
    finally:
        gpmod.GeometricProgram.check_solution = real
    for i in range(n):
        ctx.eq(sol["variables"][a][i], vals[i], "warnings: inputs")
    cats = sol.get("warnings", {})
    ctx.check(bool(cats) == any(warn), "warnings: given when there are any")
    for cat, col in cats.items():
        ctx.check(len(col) == n, "warnings: columns are as long as the sweep")
        for i in range(n):
            ctx.check(bool(len(col[i])) == warn[i], "warnings: at the points that gave them")
    for i in range(n):
        ctx.check(("sweep %i" % i in text) == warn[i], "warnings: printed for the points that gave them")


def h_local(ctx):
    "sweeps of signomial programs"
    x, y, b = X("x"), X("y"), X("b")
    with SignomialsEnabled():
        m = Model(x, [x + y >= b, y <= b/2])
    vals = [ctx.pos("b%d" % i) for i in range(2)]
    m.substitutions[b] = ("sweep", vals)
    steps = []
    costs = [3.0, 3.0, 2.0, 2.0]

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        t = len(steps)
        gp = m.program[-1]._gp
        pt = dict(x=ctx.pos("x_%d" % t), y=ctx.pos("y_%d" % t), C=1.0)
        steps.append((list(c), pt))
        primal = [0.0 if vk.name == "C" else ctx.log(pt[vk.name]) for vk in gp.varlocs]
        return dict(objective=costs[t], primal=arr(ctx, primal), nu=arr(ctx, [1.]*len(c)))
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sol = m.localsolve(solver, verbosity=0)
    finally:
        gpmod.GeometricProgram.check_solution = real
    ctx.check(len(steps) == 4 and len(sol) == 2, "local: two solves per point, a row each")
    for i in range(2):
        ctx.eq(sol["variables"][b][i], vals[i], "local: inputs")
        ctx.eq(steps[2*i+1][0][-1], 2/vals[i], "local: inputs are those of the row's solve")
        for v in (x, y):
            ctx.eq(sol["variables"][v][i], steps[2*i+1][1][v.key.name], "local: variables are the row's")
        ctx.eq(sol["cost"][i], costs[2*i+1], "local: costs are the row's")


HARNESSES = [
    Harness("grid", h_grid, "2 swept variables, 2x1 or 2x2 symbolic values, given in either order"),
    Harness("grid3", lambda ctx: h_grid(ctx, 3), "2 swept variables, 3x1 to 3x3 symbolic values"),
    Harness("three", h_three, "3 swept variables, 2x2x2 symbolic values"),
    Harness("failures", h_failures, "3 points, any subset failing in 4 ways, skipped or not"),
    Harness("linked", h_linked, "3 points, chain of 2 links, 4 functions; one point may fail"),
    Harness("linkvec", h_linkvec, "3 values, 8 vector functions (3 of another linked vector) given in 2 ways, with or without a failure"),
    Harness("vector", h_vector, "2-vectors: elements swept 4 ways beside a vector constant"),
    Harness("forms", h_forms, "3 values given 6 ways, with units"),
    Harness("absent", h_absent, "3 points, the constraint vanishing at any subset of them"),
    Harness("warnings", h_warnings, "3 points, any subset of them warning"),
    Harness("local", h_local, "signomial program, 2 points of 2 solves"),
]
