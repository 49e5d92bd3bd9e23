"Sequential solving stops only on convergence or with an error"
import contextlib
import io
import warnings
import gpkit
import gpkit.constraints.gp as gpmod
from .gplib import *
from .Q01 import Step
from gpkit import Model
from gpkit.constraints.sgp import SequentialGeometricProgram as SGP
from gpkit.exceptions import Infeasible

NOTE = "each inner solve's cost, point and slack are arbitrary symbolic numbers"


def small(ctx):
    x, y = X("x"), X("y")
    b = ctx.pos("b")
    with SignomialsEnabled():
        m = Model(x, [x + y >= b, y <= b/2])
    return m, x, y


def answers(ctx, n, slack):
    return [dict(x=ctx.pos("x%d" % t), y=ctx.pos("y%d" % t),
                 C=slack if t == n-1 and slack is not None else 1.0) for t in range(n)]


class Run:
    "a localsolve whose inner solves give these costs and points"
    def __init__(self, ctx, m, costs, pts, pccp=True, when=None):
        self.ctx, self.m, self.costs, self.pts, self.pccp = ctx, m, costs, pts, pccp
        self.steps, self.slack = [], None

    def solver(self, *, c, A, k, p_idxs, meq_idxs, **_):
        ctx = self.ctx
        gp = self.sp._gp
        t = len(self.steps)
        self.steps.append(Step(gp, c, A, k, p_idxs, meq_idxs))
        if t >= len(self.costs):
            raise AssertionError("too many solves")
        pt = self.pts[t]
        vals = [pt[vk.name] for vk in gp.varlocs]
        return dict(objective=self.costs[t], nu=arr(ctx, [1.]*len(c)),
                    primal=arr(ctx, [0.0 if isinstance(v, float) and v == 1.0 else ctx.log(v) for v in vals]))

    def __call__(self, verbosity=0, **kw):
        ctx = self.ctx
        self.sp = SGP(self.m.cost, self.m, self.m.substitutions, use_pccp=self.pccp)
        real = gpmod.GeometricProgram.check_solution
        gpmod.GeometricProgram.check_solution = lambda *a, **k: None
        self.result = self.error = None
        try:
            with warnings.catch_warnings(record=True) as self.warnings:
                warnings.simplefilter("always")
                with contextlib.redirect_stdout(io.StringIO()) as self.printed:
                    self.result = self.sp.localsolve(self.solver, verbosity=verbosity, **kw)
        except Infeasible as e:
            self.error = e
        finally:
            gpmod.GeometricProgram.check_solution = real
        self.texts = [str(w.message) for w in self.warnings]
        return self.result


def h_stop(ctx):
    "when it stops"
    m, x, y = small(ctx)
    n = 4
    costs = [ctx.pos("cost%d" % t) for t in range(n)]
    limit = 1 + ctx.choice("limit", 3)
    reltol = [None, 0.01][ctx.choice("reltol", 2)]
    verbosity = [-1, 0][ctx.choice("verbosity", 2)]
    run = Run(ctx, m, costs, answers(ctx, n, None))
    kw = {} if reltol is None else dict(reltol=reltol)
    run(verbosity, iteration_limit=limit, **kw)
    tol = reltol or 1e-4
    done = len(run.steps)
    ctx.check(1 <= done <= limit, "never more solves than allowed")
    ctx.check(len(run.sp.gps) == done == len(run.sp.solver_outs), "each solve is recorded")
    rises = 0
    for t in range(1, done):
        p, c = costs[t-1], costs[t]
        last = t == done-1 and run.error is None
        if last:
            ctx.refute([p-c >= 2.2*tol*p], "stops only once costs agree")
            ctx.refute([c-p >= 3e-6*c], "never stops on a cost rise")
        elif t == 1 or not ctx.holds(costs[t-1] - costs[t-2] >= 0):  # a rise starts the comparison afresh
            ctx.refute([p-c >= 0, p-c <= 0.9*tol*c], "stops when costs agree")
        if ctx.holds(c-p >= 3e-6*c):
            rises += 1
            if verbosity > -1:
                ctx.check(any("rose" in w for w in run.texts), "a cost rise is warned of")
    if run.error is None:
        ctx.check(done >= 2, "one solve is not convergence")
        ctx.eq(run.result["cost"], costs[done-1], "the last cost is returned")
        ctx.check(run.sp.result is run.result, "the result is kept")
        if not rises:
            # rises within rounding may be mentioned or not
            small_rise = [c for c in range(1, done) if ctx.holds(costs[c] > costs[c-1])]
            ctx.check(small_rise or not any("rose" in w for w in run.texts), "no rise, no warning")
    else:
        ctx.check(done == limit, "gives up only at the limit")


def h_result(ctx):
    "what is returned"
    m, x, y = small(ctx)
    pccp = ctx.choice("pccp", 2)
    n = 2 + ctx.choice("n", 2)
    slack = ctx.pos("slack") if pccp else None
    if pccp:
        ctx.assume(slack >= 1)
    pts = answers(ctx, n, slack)
    costs = [3.0, 2.0, 2.0] if n == 3 else [2.0, 2.0]
    verbosity = [-1, 0, 1][ctx.choice("verbosity", 3)]
    run = Run(ctx, m, costs, pts, pccp)
    res = run(verbosity)
    ctx.check(res is not None and len(run.steps) == n, "solved")
    key = SGP.slack.key
    for name, v in (("x", x), ("y", y)):
        ctx.eq(res["variables"][v.key], pts[n-1][name], "the last point is returned")
        ctx.eq(res["freevariables"][v.key], pts[n-1][name], "the last point is returned")
    if not pccp:
        ctx.check(key not in res["variables"], "no slack without slack")
        ctx.check(not run.texts, "no warning")
    else:
        present = key in res["variables"]
        parts = [key in res["freevariables"], key in res["sensitivities"]["variables"],
                 key in res["sensitivities"]["cost"]]
        ctx.check(all(p == present for p in parts), "slack is removed from everything or nothing")
        shown = [c for c in res["sensitivities"]["constraints"] if key in getattr(c, "vks", ())]
        ctx.check(bool(shown) == present, "the slack's constraint is removed with it")
        warned = any("slacken" in w for w in run.texts)
        if present:
            ctx.refute([slack - 1 <= 0.9e-6], "negligible slack is removed")
            ctx.eq(res["variables"][key], slack, "slack's value")
            ctx.check(warned or verbosity < 0, "signomial constraints' slackening is warned of")
        else:
            ctx.refute([slack - 1 >= 1.1e-6], "slack that matters is kept")
            ctx.check(not warned, "nothing to warn of")
    # every step's own result
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        results = run.sp.results
    finally:
        gpmod.GeometricProgram.check_solution = real
    ctx.check(len(results) == n, "a result for every step")
    for t, (r, step) in enumerate(zip(results, run.steps)):
        ctx.eq(r["cost"], costs[t], "step's cost")
        for name, v in (("x", x), ("y", y)):
            ctx.eq(r["variables"][v.key], pts[t][name], "step's point")
            want = sum([row.get(v.key, 0) for row in step.rows])      # duals are all one
            ctx.eq(r["sensitivities"]["variables"].get(v.key, 0), want, "step's sensitivities")


def h_model(ctx):
    "through the model: the solution is the last iterate's"
    x, y, k = X("x"), X("y"), X("k")
    b, kv = ctx.pos("b"), ctx.pos("kv")
    with SignomialsEnabled():
        m = Model(x, [x + y >= b*k, y <= b/2], {k: kv})
    pts = answers(ctx, 2, None)
    run = Run(ctx, m, [2.0, 2.0], pts)
    steps = []

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        gp = m.program._gp
        t = len(steps)
        steps.append(1)
        vals = [pts[t][vk.name] for vk in gp.varlocs]
        return dict(objective=2.0, nu=arr(ctx, [1.]*len(c)),
                    primal=arr(ctx, [0.0 if isinstance(v, float) and v == 1.0 else ctx.log(v) for v in vals]))
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        sol = m.localsolve(solver, verbosity=0)
    finally:
        gpmod.GeometricProgram.check_solution = real
    ctx.check(m.solution is sol and isinstance(m.program, SGP), "model: solution is stored")
    for name, v in (("x", x), ("y", y)):
        ctx.eq(sol["variables"][v.key], pts[1][name], "model: last point")
    ctx.eq(sol["variables"][k.key], kv, "model: constants")
    ctx.check(SGP.slack.key not in sol["variables"] and set(m.varkeys) == {x.key, y.key, k.key},
              "model: no slack left")


HARNESSES = [
    Harness("stop", h_stop, "up to 4 solves of any costs, limits 1-3, 2 tolerances, 2 verbosities", max_paths=6000),
    Harness("result", h_result, "2-3 solves, any points and final slack, with and without slack, 3 verbosities"),
    Harness("model", h_model, "one model, 2 solves, any points"),
]
