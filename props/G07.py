"Every solver failure surfaces and leaves the process as it was"
import contextlib
import io
import sys
import gpkit
import gpkit.constraints.gp as gpmod
from .gplib import *
from gpkit import Model
from gpkit.constraints.sgp import SequentialGeometricProgram
from gpkit.exceptions import (Infeasible, UnknownInfeasible, PrimalInfeasible, DualInfeasible,
                              InvalidLicense)
NOTE = "faults are injected by solver functions passed to solve; the answers' numbers are symbolic"


class Own(Exception):
    "an error of the solver's own"


class OwnBase(BaseException):
    "something that is not an Exception"


RAISES = [(PrimalInfeasible, PrimalInfeasible), (DualInfeasible, DualInfeasible),
          (UnknownInfeasible, UnknownInfeasible), (Infeasible, Infeasible),
          (InvalidLicense, InvalidLicense), (Own, UnknownInfeasible), (ValueError, UnknownInfeasible),
          (KeyError, UnknownInfeasible), (SystemExit, SystemExit),
          (KeyboardInterrupt, KeyboardInterrupt), (OwnBase, OwnBase)]


class State:
    "what a solve must leave alone"
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.out = sys.stdout
        self.subs = {k: v for k, v in m.substitutions.items()}
        self.kw = {k: dict(v) for k, v in gpmod.DEFAULT_SOLVER_KWARGS.items()}
        self.tol = dict(gpmod.SOLUTION_TOL)
        self.settings = dict(gpkit.settings)
        self.solution = m.solution
        self.leaves = [id(c) for c in m.flat()]
        self.cost = m.cost

    def check(self, tag):
        ctx, m = self.ctx, self.m
        ctx.check(sys.stdout is self.out, tag+": standard output is the process's own again")
        sys.stdout = self.out
        ctx.check(set(m.substitutions) == set(self.subs), tag+": substituted variables unchanged")
        for k, v in self.subs.items():
            if k in m.substitutions:
                ctx.check(m.substitutions[k] is v or m.substitutions[k] == v, tag+": substitutions unchanged")
        ctx.check({k: dict(v) for k, v in gpmod.DEFAULT_SOLVER_KWARGS.items()} == self.kw,
                  tag+": default options unchanged")
        ctx.check(dict(gpmod.SOLUTION_TOL) == self.tol, tag+": tolerances unchanged")
        ctx.check(dict(gpkit.settings) == self.settings, tag+": settings unchanged")
        ctx.check(m.solution is self.solution, tag+": no solution was stored")
        ctx.check([id(c) for c in m.flat()] == self.leaves, tag+": constraints unchanged")
        ctx.check(m.cost is self.cost, tag+": cost unchanged")


def model(ctx, which=0):
    """which 0: min x : x >= b*k, 1: with an equality, 2: signomial.
    Returns model, good answer in names"""
    x, y, k = X("x"), X("y"), X("k")
    b, kv = ctx.pos("b"), ctx.pos("kv")
    if which == 0:
        m = Model(x, [x >= b*k], {k: kv})
        vals, las = {"x": b*kv}, [1]
    elif which == 1:
        m = Model(x/y, [y == b*k, x >= y**2], {k: kv})
        vals, las = {"x": (b*kv)**2, "y": b*kv}, None
    else:
        with gpkit.SignomialsEnabled():
            m = Model(x, [x + y >= b*k, y <= b*k/2], {k: kv})
        vals, las = {"x": b*kv/2, "y": b*kv/2}, None
    return m, vals, {"b": b, "k": kv}


def answer(ctx, prog, byname, la=None):
    gp = getattr(prog, "_gp", prog)
    return dict(objective=None, primal=arr(ctx, [ctx.log(byname[vk.name]) for vk in gp.varlocs]))


def call(ctx, what, good):
    "runs what(); returns the exception raised, or None"
    try:
        with contextlib.redirect_stdout(io.StringIO()) as buf:
            inner = sys.stdout
            try:
                what()
            finally:
                ok = sys.stdout is inner
                sys.stdout = inner
        exc = None
    except BaseException as e:  # pylint: disable=broad-except
        exc = e
    ctx.check(ok, good+": standard output is restored")
    return exc


def h_raises(ctx):
    "solvers that raise"
    m, vals, _ = model(ctx, ctx.choice("model", 2))
    exc, want = RAISES[ctx.choice("exc", len(RAISES))]
    noisy = ctx.choice("noisy", 2)
    state = State(ctx, m)

    def bad(**kwargs):
        if noisy:
            print("working")
            kwargs.clear()
        raise exc("a message")
    verbosity = ctx.choice("verbosity", 2) if issubclass(exc, Exception) and not issubclass(
        exc, InvalidLicense) else 0
    err = call(ctx, lambda: m.solve(bad, verbosity=verbosity), "raise")
    state.check("raise")
    ctx.check(type(err) is want, "a solver raising %s raises %s" % (exc.__name__, want.__name__))
    if isinstance(err, (Infeasible, InvalidLicense)) and err is not None:
        ctx.check(isinstance(err.__cause__, exc) or verbosity, "the solver's error is named as the cause")
    if not verbosity:
        ctx.check(m.program.solver_out.get("primal", None) is None, "no answer is kept")
        got = None
        try:
            got = m.program.result
        except Exception:  # pylint: disable=broad-except
            pass
        ctx.check(got is None, "a failed program has no result")
        ctx.check("working" in m.program.solve_log if noisy else not m.program.solve_log,
                  "what the solver printed is in the log")


MALFORMED = ["short primal", "long primal", "empty primal", "short nu", "long nu", "no duals",
             "short la", "long la", "empty la", "no objective", "no primal", "not a dict",
             "words", "none"]


def h_malformed(ctx):
    "answers that are not answers"
    m, vals, _ = model(ctx, ctx.choice("model", 2))
    how = MALFORMED[ctx.choice("how", len(MALFORMED))]
    extra = [ctx.pos("e%d" % i) for i in range(3)]
    state = State(ctx, m)

    def bad(*, c, A, k, **_):
        prog = m.program
        primal = [ctx.log(vals[vk.name]) for vk in prog.varlocs]
        nu = [extra[0]]*len(c)
        out = dict(objective=extra[1], primal=primal, nu=nu)
        key = how.split()[-1]
        if how in ("short primal", "short nu"):
            out[key] = out[key][:-1]
        elif how in ("long primal", "long nu"):
            out[key] = out[key] + [extra[2]]
        elif how == "empty primal":
            out["primal"] = []
        elif how == "no duals":
            del out["nu"]
        elif key == "la":
            del out["nu"]
            # la may leave out the cost's; one fewer or more than that is wrong
            out["la"] = {"short": [extra[0]]*(len(k)-2), "long": [extra[0]]*(len(k)+1), "empty": []}[how.split()[0]]
        elif how == "no objective":
            del out["objective"]
        elif how == "no primal":
            del out["primal"]
        elif how == "words":
            out["objective"] = "cheap"
        elif how == "none":
            out["objective"] = None
        elif how == "not a dict":
            return None
        for k_ in ("primal", "nu", "la"):
            if k_ in out:
                out[k_] = arr(ctx, out[k_])
        return out
    if how in ("short la", "empty la") and len(m.gp(checkbounds=False).hmaps) == 1:
        return
    err = call(ctx, lambda: m.solve(bad, verbosity=0), "malformed")
    state.check("malformed")
    ctx.check(err is not None, "a malformed answer (%s) is not returned as a solution" % how)
    if how.split()[-1] in ("primal", "nu", "la", "duals") and how != "no primal":
        ctx.check(isinstance(err, RuntimeWarning), "a malformed answer (%s) raises a RuntimeWarning" % how)


def good_solver(ctx, m, vals, want, seen=None):
    "the right answer to m"
    def good(*, c, A, k, p_idxs, **kwargs):
        prog = getattr(m.program, "_gp", m.program)
        if seen is not None:
            seen.append((list(c), list(k), list(p_idxs), kwargs))
        cost = 0
        for i in range(k[0]):
            t = c[i]
            for vk, e in prog.exps[i].items():
                t = t*vals[vk.name]**e
            cost = cost + t
        return dict(status="optimal", objective=cost, nu=arr(ctx, want),
                    primal=arr(ctx, [ctx.log(vals[vk.name]) for vk in prog.varlocs]))
    return good


def h_retry(ctx):
    "a model that failed is solved like one that never did"
    which = ctx.choice("model", 2)
    m, vals, given = model(ctx, which)
    flip = ctx.choice("flip", 2) if which == 1 else 0
    # model 1: dlogcost/dlog y = -1 directly, and x = y^2 gives +2
    nu = [1, 1] if which == 0 else [1, 1, 0, 1]
    how = ctx.choice("how", 5)

    def bad(**kwargs):
        if how == 0:
            raise PrimalInfeasible()
        if how == 1:
            raise Own()
        if how == 2:
            return dict(objective=1., primal=arr(ctx, []), nu=arr(ctx, []))
        if how == 3:  # negated duals: the last step of an answer's packing fails
            return dict(objective=1., primal=arr(ctx, [0.]*len(m.program.varlocs)), la=arr(ctx, []))
        raise KeyboardInterrupt()
    state = State(ctx, m)
    err = call(ctx, lambda: m.solve(bad, verbosity=0, option=1), "retry")
    state.check("retry")
    ctx.check(err is not None, "the failure surfaces")
    seen = []
    if which == 1:
        prog = m.gp(checkbounds=False)
        # the equality's two halves: whichever holds y's bound from below
        nu = []
        for i, exp in enumerate(prog.exps):
            e = {vk.name: p for vk, p in exp.items()}
            if prog.p_idxs[i] == 0 or set(e) == {"x", "y"}:
                nu.append(1)
            else:
                nu.append(1 if e["y"] < 0 else 0)
        flip = 0
    else:
        nu = [1, 1]
    good = good_solver(ctx, m, vals, nu, seen)
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        sol = m.solve(good, verbosity=0)
    ctx.check("Solution check warning" not in buf.getvalue(), "the retried answer is accepted")
    ctx.check(len(seen) == 1 and "option" not in seen[0][3], "options do not carry over")
    want = vals["x"] if which == 0 else vals["x"]/vals["y"]
    ctx.eq(sol["cost"], want, "retried cost")
    for n, v in vals.items():
        ctx.eq(sol["variables"][n], v, "retried value")
    ctx.eq(sol["sensitivities"]["variables"]["k"], 1, "retried sensitivity")
    ctx.check(m.solution is sol, "the solution is stored")


def h_again(ctx):
    "successive answers to one program are not confused"
    m, vals, given = model(ctx, 0)
    gp = m.gp(checkbounds=False)
    t = [ctx.pos("t0"), ctx.pos("t1")]
    order = ctx.choice("order", 4)
    calls = []

    def solver(*, c, A, **_):
        v = t[len(calls)]
        calls.append(v)
        return dict(objective=v, primal=arr(ctx, [ctx.log(v)]), nu=arr(ctx, [1, 1]))

    def bad(**_):
        raise PrimalInfeasible()
    gp.check_solution = lambda *a, **k: None
    gp.solve(solver, verbosity=0, gen_result=bool(order % 2))
    first = gp.result
    ctx.eq(first["cost"], t[0], "first cost")
    if order >= 2:
        err = call(ctx, lambda: gp.solve(bad, verbosity=0), "again")
        ctx.check(isinstance(err, PrimalInfeasible), "the failure surfaces")
        got = None
        try:
            got = gp.result
        except Exception:  # pylint: disable=broad-except
            pass
        ctx.check(got is None, "a failed solve does not show an earlier result")
    out = gp.solve(solver, verbosity=0, gen_result=False)
    ctx.check(out["objective"] is t[1] or ctx.concrete, "the raw answer is returned")
    ctx.eq(gp.result["cost"], t[1], "the latest result is shown")
    ctx.eq(gp.result["variables"]["x"], t[1], "the latest values are shown")
    ctx.eq(first["cost"], t[0], "an earlier result is left alone")


def h_sgp(ctx):
    "failures at any step of a sequential solve"
    m, vals, given = model(ctx, 2)
    step = ctx.choice("step", 2)
    exc, want = RAISES[ctx.choice("exc", len(RAISES))]
    state = State(ctx, m)
    calls = []
    slack = ctx.choice("pccp", 2)

    def solver(*, c, A, k, p_idxs, **_):
        if len(calls) == step:
            raise exc("message")
        calls.append(1)
        prog = m.program._gp
        at = dict(vals, **{vk.name: 1. for vk in prog.varlocs if vk.name not in vals})
        cost = 0
        for i in range(k[0]):
            t = c[i]
            for vk, e in prog.exps[i].items():
                t = t*at[vk.name]**e
            cost = cost + t
        return dict(objective=cost, nu=arr(ctx, [1.]*len(c)),
                    primal=arr(ctx, [ctx.log(at[vk.name]) for vk in prog.varlocs]))
    err = call(ctx, lambda: m.localsolve(solver, verbosity=0, use_pccp=bool(slack))
               if not slack else m.localsolve(solver, verbosity=0), "sgp")
    if isinstance(err, TypeError):
        raise err
    state.check("sgp")
    ctx.check(type(err) is want, "sequential: a solver raising %s raises %s" % (exc.__name__, want.__name__))
    ctx.check(len(calls) == step, "sequential: the failing step ends the solve")


def h_debug(ctx):
    "interactive solves of which even the debugging fails; sweeps that fail"
    m, vals, given = model(ctx, 0)
    how = ctx.choice("how", 3)
    exc, want = RAISES[ctx.choice("exc", 4)]
    state = State(ctx, m)

    def bad(**_):
        raise exc()
    if how == 0:
        err = call(ctx, lambda: m.solve(bad), "debug")
    elif how == 1:
        err = call(ctx, lambda: m.gp(checkbounds=False).solve(bad, verbosity=0), "debug")
    else:
        err = call(ctx, lambda: gpmod.GeometricProgram(
            m.cost, m, m.substitutions, checkbounds=False).solve(bad, verbosity=1), "debug")
    state.check("debug")
    ctx.check(type(err) is want, "what nothing can diagnose is raised")


def h_unknown(ctx):
    "solver names that are not solvers'"
    m, vals, given = model(ctx, 0)
    state = State(ctx, m)
    name = ["cvxpt", "", "mosek", 3][ctx.choice("name", 4)]
    err = call(ctx, lambda: m.solve(name, verbosity=0), "unknown")
    state.check("unknown")
    ctx.check(isinstance(err, ValueError), "an unknown solver is refused")


HARNESSES = [
    Harness("raises", h_raises, "2 models, 11 exceptions, silent and printing solvers"),
    Harness("malformed", h_malformed, "2 models, 14 kinds of malformed answer"),
    Harness("retry", h_retry, "2 models, 5 failures before a right answer"),
    Harness("again", h_again, "one program solved up to three times"),
    Harness("sgp", h_sgp, "a signomial model, failing at its first or second step in 11 ways"),
    Harness("debug", h_debug, "4 exceptions, at every solve"),
    Harness("unknown", h_unknown, "4 names"),
]
