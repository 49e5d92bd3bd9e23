"Autosweep results bracket the true optimum within the requested tolerance"
import contextlib
import io
import math
import gpkit.constraints.gp as gpmod
from .gplib import *
from .W03 import unchecked
from gpkit import Model
from gpkit.tools.autosweep import BinarySweepTree, SolutionOracle, autosweep_1d, get_tol, recurse_splits

NOTE = ("the true log-cost is an arbitrary convex function of the log of the swept value: its values and "
        "slopes at the solved points and at the queried one are symbolic, constrained only by convexity")


class Truth:
    "an arbitrary convex function, sampled where asked"
    def __init__(self, ctx):
        self.ctx, self.pts = ctx, []

    def at(self, x, tag, slope=None, level=None):
        ctx = self.ctx
        y = ctx.real("y_"+tag) if level is None else level
        s = ctx.real("s_"+tag) if slope is None else slope
        for x2, y2, s2 in self.pts:
            ctx.assume(y >= y2 + s2*(x-x2))
            ctx.assume(y2 >= y + s*(x2-x))
        self.pts.append((x, y, s))
        return y, s


class Sol(dict):
    "as much of a solution as autosweep uses"
    def __init__(self, var, y, s, ctx, extra=None):
        dict.__init__(self, cost=ctx.exp(y), sensitivities={"variables": {var: s}})
        self.extra = extra

    def __call__(self, key):
        return self.extra[key]


def h_tol(ctx):
    "get_tol on arbitrary convex data"
    t = Truth(ctx)
    x0, x1 = ctx.real("x0"), ctx.real("x1")
    ctx.assume(x1 > x0)
    y0, s0 = t.at(x0, "0")
    y1, s1 = t.at(x1, "1")
    var = X("a").key
    x, lb, ub = get_tol(np.array([y0, y1]) if not ctx.concrete else np.array([float(y0), float(y1)]),
                        [ctx.exp(x0), ctx.exp(x1)], [Sol(var, y0, s0, ctx), Sol(var, y1, s1, ctx)], var)
    lx = ctx.log(x)
    ctx.check(lx > x0, "tol: the worst point is inside")
    ctx.check(lx < x1, "tol: the worst point is inside")
    ctx.le(lb, ub + 1e-9 + 0*y0, "tol: bounds are ordered")
    yq, sq = t.at(lx, "q")
    slack = 1e-6*(1 + (x1-x0)*(s1-s0))
    ctx.le(yq, ub + slack, "tol: upper bound")
    ctx.ge(yq, lb - slack, "tol: lower bound")




class Auto:
    "an autosweep of a real model whose solves return samples of an arbitrary convex cost"
    def __init__(self, ctx, most, lo=None, hi=None, cost=None, given=()):
        self.ctx, self.most = ctx, most
        self.x, self.a = X("x"), X("a")
        # slope of the log-cost in log a: nu - 2
        self.m = Model((cost or self.x)*self.a**-2, [self.x >= self.a])
        self.truth, self.given = Truth(ctx), given
        self.x0 = ctx.real("x0") if lo is None else lo
        self.x1 = ctx.real("x1") if hi is None else hi
        ctx.assume(self.x1 > self.x0)
        self.solved = []        # (log of swept value, log cost, slope, value of x)

    def solver(self, *, c, A, k, p_idxs, meq_idxs, **_):
        ctx, t = self.ctx, len(self.solved)
        ctx.assume(t < self.most)
        at = ctx.log(c[-1])     # x >= a
        y = s = None
        if t < len(self.given):
            y, s = self.given[t]
            y = ctx.real("y_%d" % t) if y is None else y
        if s is None:
            s = ctx.real("s_%d" % t)
            ctx.assume(s > -2)
        y, _s = self.truth.at(at, str(t), s, y)
        xv = ctx.pos("xv%d" % t)
        self.solved.append((at, y, s, xv))
        return dict(objective=ctx.exp(y), primal=arr(ctx, [ctx.log(xv)]), nu=arr(ctx, [1.0, s+2]))

    def run(self, tol, **kw):
        ctx = self.ctx
        def solver(**kw):
            return self.solver(**kw)
        with unchecked():
            self.bst = autosweep_1d(self.m, tol, self.a.key, [ctx.exp(self.x0), ctx.exp(self.x1)],
                                    solver=solver, verbosity=0)
        return self.bst


def leaves(bst):
    if bst.splits:
        return leaves(bst.splits[0]) + leaves(bst.splits[1])
    return [bst]


def check_tree(ctx, auto, tol, tag):
    bst = auto.bst
    ls = leaves(bst)
    ctx.check(len(ls) == len(auto.solved)-1, tag+": one interval between each two solves")
    ctx.check(bst.nsols == len(auto.solved), tag+": solves are counted")
    ctx.eq(ctx.log(ls[0].bounds[0]), auto.x0, tag+": intervals cover the range")
    ctx.eq(ctx.log(ls[-1].bounds[1]), auto.x1, tag+": intervals cover the range")
    for l, r in zip(ls, ls[1:]):
        ctx.check(l.bounds[1] is r.bounds[0] or l.bounds[1] == r.bounds[0], tag+": intervals are contiguous")
        ctx.check(l.sols[1] is r.sols[0], tag+": neighbours share their solution")
    for l in ls:
        ctx.lt((l.splitub - l.splitlb)/2, tol, tag+": refined to the tolerance")
        if bst.splits:
            ctx.ge(bst.tol, (l.splitub - l.splitlb)/2, tag+": no less than the remaining gaps")
    sols = bst.sollist
    ctx.check(len(sols) == len(auto.solved), tag+": every solution is listed once")
    want = [ls[0].sols[0]] + [l.sols[1] for l in ls]
    ctx.check(all(a is b for a, b in zip(sols, want)), tag+": solutions are listed in order")
    return ls


def h_none(ctx):
    "no refinement needed"
    auto = Auto(ctx, 2)
    tol = ctx.pos("tol")
    auto.run(tol)
    check_tree(ctx, auto, tol, "none")
    lq = ctx.real("q")
    ctx.assume(lq >= auto.x0)
    ctx.assume(lq <= auto.x1)
    bounds_at(ctx, auto, lq, tol, "none")


def bounds_at(ctx, auto, lq, tol, tag):
    oracle = auto.bst.sample_at([ctx.exp(lq)])
    lb, ub, mid = ctx.log(oracle.cost_lb()[0]), ctx.log(oracle.cost_ub()[0]), ctx.log(oracle["cost"][0])
    yq, sq = auto.truth.at(lq, "q")
    smax, smin = auto.solved[1][2], auto.solved[0][2]
    slack = 1e-6*(1 + (auto.x1-auto.x0)*(smax-smin))
    ctx.le(yq, ub + slack, tag+": upper bound")
    ctx.ge(yq, lb - slack, tag+": lower bound")
    ctx.le(ub - lb, 2*tol + slack, tag+": within the tolerance")
    ctx.le(lb, mid + slack, tag+": the estimate is between the bounds")
    ctx.le(mid, ub + slack, tag+": the estimate is between the bounds")


# (log cost, slope) at both ends; lower bounds meet halfway or at a quarter
ENDS = [((0.0, -1.0), (0.5, 2.0)), ((0.5, 0.25), (1.125, 1.0)), ((0.0, -1.5), (-1.0, -0.5)),
        ((0.0, 0.0), (0.125, 0.5))]


def ends(ctx):
    return ENDS[ctx.choice("ends", len(ENDS))]


def h_split(ctx, numeric=True, query=False):
    "up to two refinements"
    two = ends(ctx)
    (y0, s0), (y1, s1) = two
    x = (y1-y0-s1)/(s0-s1)
    lb, ub = y0 + s0*x, y0 + (y1-y0)*x
    level = lb + (ub-lb)*[0.25, 0.75][ctx.choice("level", 2)] if numeric else None
    mid = [0.75*s0 + 0.25*s1, 0.25*s0 + 0.75*s1][ctx.choice("mid", 2)]
    x0 = ctx.real("x0")     # symbolic so that logs and exponentials cancel exactly
    auto = Auto(ctx, 4, x0, x0+1, given=two + ((level, mid),))
    tol = ctx.pos("tol")
    auto.run(tol)
    ctx.assume(len(auto.solved) > 2)
    check_tree(ctx, auto, tol, "split")
    if query:
        lq = ctx.real("q")
        lq = x0 + lq
        ctx.assume(lq >= x0)
        ctx.assume(lq <= x0+1)
        bounds_at(ctx, auto, lq, tol, "split")


def h_splitq(ctx):
    "one refinement, looked up anywhere"
    x0 = ctx.real("x0")
    auto = Auto(ctx, 3, x0, x0+1, given=ends(ctx))
    tol = ctx.pos("tol")
    auto.run(tol)
    ctx.assume(len(auto.solved) > 2)
    lq = ctx.real("q")
    lq = x0 + lq
    ctx.assume(lq >= x0)
    ctx.assume(lq <= x0+1)
    bounds_at(ctx, auto, lq, tol, "splitq")


def tree(ctx):
    """a three-interval tree grown by hand: [b0, b1], [b1, b2] and [b2, b3], with
    lower bounds in each"""
    var = X("a")
    logs = [ctx.real("b%d" % i) for i in range(4)]
    for a, b in zip(logs, logs[1:]):
        ctx.assume(b > a)
    ys = [ctx.real("y%d" % i) for i in range(4)]
    ps = [ctx.pos("p%d" % i) for i in range(4)]
    km = gpkit.ureg.km
    sols = [Sol(var.key, y, 0.5, ctx, extra={"p": ctx.exp(y)*0+p, "u": p*km}) for y, p in zip(ys, ps)]
    bounds = [ctx.exp(l) for l in logs]
    bst = BinarySweepTree([bounds[0], bounds[3]], [sols[0], sols[3]], var.key, var)
    if ctx.boolean("leftfirst"):
        bst.add_split(bounds[1], sols[1])
        bst.splits[1].add_split(bounds[2], sols[2])
        cells = [bst.splits[0], bst.splits[1].splits[0], bst.splits[1].splits[1]]
    else:
        bst.add_split(bounds[2], sols[2])
        bst.splits[0].add_split(bounds[1], sols[1])
        cells = [bst.splits[0].splits[0], bst.splits[0].splits[1], bst.splits[1]]
    mids = []
    for i, cell in enumerate(cells):
        mid = (logs[i]+logs[i+1])/2
        lb, ub = ctx.real("lb%d" % i), ctx.real("ub%d" % i)
        ctx.assume(lb <= ub)
        cell.add_splitcost(ctx.exp(mid), lb, ub)
        mids.append((mid, lb, ub))
    return bst, logs, ys, ps, bounds, mids, sols


def h_lookup(ctx):
    "looked up anywhere in a tree"
    bst, logs, ys, ps, bounds, mids, sols = tree(ctx)
    near = ctx.choice("near", 4)  # anywhere, or close to where intervals meet
    if near:
        lq = [logs[1], logs[2], mids[1][0]][near-1] + ctx.real("q")/1000
        for end in (logs[0], logs[3]):
            ctx.assume(abs(lq - end) > 1e-9)
    else:
        lq = ctx.real("q")
    inside = ctx.holds(lq >= logs[0]) and ctx.holds(lq <= logs[3])
    value = ctx.exp(lq)
    what = ctx.choice("what", 4)
    oracle = bst.sample_at([value])
    look = [lambda: oracle["p"][0], lambda: oracle("u")[0], oracle.cost_lb, oracle.cost_ub][what]
    if not inside:
        try:
            look()
            ctx.check(False, "lookup: values outside the range are rejected")
        except ValueError:
            ctx.check(True, "lookup: values outside the range are rejected")
        return
    got = look()
    for i in range(3):
        if ctx.holds(lq <= logs[i+1]):
            break
    lo, hi = logs[i], logs[i+1]
    if what < 2:
        if what == 1:
            ctx.check(str(got.units) == "kilometer", "lookup: in the solution's units")
            got = got.magnitude
        lv, hv = ctx.log(ps[i]), ctx.log(ps[i+1])
    else:
        got = got[0]
        mid, lb, ub = mids[i]
        edge = lb if what == 2 else ub
        if ctx.holds(lq <= mid):
            hi, lv, hv = mid, ys[i], edge
        else:
            lo, lv, hv = mid, edge, ys[i+1]
    # linear in logs between the ends of the interval it lies in
    ctx.eq((ctx.log(got)-lv)*(hi-lo), (hv-lv)*(lq-lo), "lookup: interpolates the interval it lies in")


def h_solved(ctx):
    "at solved points"
    bst, logs, ys, ps, bounds, mids, sols = tree(ctx)
    oracle = bst.sample_at(bounds)
    lbs, ubs, costs, p, u = oracle.cost_lb(), oracle.cost_ub(), oracle["cost"], oracle["p"], oracle["u"]
    for i in range(4):
        for got in (lbs[i], ubs[i], costs[i]):
            ctx.eq(ctx.log(got), ys[i], "solved: bounds and estimate coincide")
        ctx.eq(p[i], ps[i], "solved: values are the solution's")
        ctx.eq(u[i].magnitude, ps[i], "solved: values are the solution's")
    got = bst.sollist
    ctx.check(len(got) == 4 and all(a is b for a, b in zip(got, sols)), "solved: solutions in order, once")
    for bad in ([bounds[1], bounds[0]], [bounds[0]], [bounds[0], bounds[0]], bounds[:3]):
        try:
            BinarySweepTree(bad, sols[:2], X("a").key, X("a"))
            ctx.check(False, "solved: impossible bounds are rejected")
        except ValueError:
            ctx.check(True, "solved: impossible bounds are rejected")
    leaf = BinarySweepTree([bounds[0], bounds[1]], [sols[0], sols[1]], X("a").key, X("a"))
    for at in (bounds[0], bounds[1], bounds[2]):
        for grow in (lambda: leaf.add_split(at, sols[1]), lambda: leaf.add_splitcost(at, 0., 1.)):
            try:
                grow()
                ctx.check(False, "solved: splits outside are rejected")
            except ValueError:
                ctx.check(True, "solved: splits outside are rejected")


def h_data(ctx):
    "an autosweep's solutions and their array"
    x0 = ctx.real("x0")
    auto = Auto(ctx, 3, x0, x0+1, given=ends(ctx))
    auto.run(ctx.pos("tol"))
    bst, n = auto.bst, len(auto.solved)
    order = [0, 1] if n == 2 else [0, 2, 1]
    for how in range(2):
        sols = bst.sollist if how == 0 else None
        arr_ = bst.solarray if how else None
        for i, t in enumerate(order):
            at, y, s, xv = auto.solved[t]
            if how == 0:
                cost, xval, aval = sols[i]["cost"], sols[i]["variables"][auto.x], sols[i]["variables"][auto.a]
            else:
                cost, xval, aval = (arr_["cost"][i], arr_["variables"][auto.x][i], arr_["variables"][auto.a][i])
            ctx.eq(ctx.log(cost), y, "data: costs in order of the swept value")
            ctx.eq(xval, xv, "data: variables in order of the swept value")
            ctx.eq(ctx.log(aval), at, "data: swept values in order")
    lo = bst.sample_at([ctx.exp(at) for at, _, _, _ in auto.solved])
    for i, (at, y, s, xv) in enumerate(auto.solved):
        ctx.eq(lo(auto.x)[i].magnitude if hasattr(lo(auto.x), "magnitude") else lo(auto.x)[i], xv,
               "data: looked up at solved points")
        ctx.eq(ctx.log(lo["cost"][i]), y, "data: cost looked up at solved points")
        ctx.eq(ctx.log(lo(auto.m.cost)[i]), y, "data: the cost expression is the cost")
        ctx.eq(lo(3*auto.m.cost)[i], 3*xv/ctx.exp(at)**2, "data: other expressions are evaluated")


def h_flat(ctx):
    "slopes made of costs' terms that may cancel"
    x, y_, a = X("x"), X("y"), X("a")
    m = Model(x*a + y_/a, [x >= 1, y_ >= 1])
    truth, solved = Truth(ctx), []
    x0 = ctx.real("x0")

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        t = len(solved)
        ctx.assume(t < 2)
        w = ctx.pos("w%d" % t)
        ctx.assume(w < 1)
        at = [x0, x0+1][t]
        y, s = truth.at(at, str(t), 2*w-1)
        solved.append((at, y, s))
        col = dict(zip(A.row, A.col))
        xfirst = col[0] == col[2]  # is the cost's first monomial x*a, as the first constraint's is 1/x?
        nu = [w, 1-w, w, 1-w] if xfirst else [1-w, w, w, 1-w]
        return dict(objective=ctx.exp(y), primal=arr(ctx, [0.0, 0.0]), nu=arr(ctx, nu))
    with unchecked():
        bst = autosweep_1d(m, ctx.pos("tol"), a.key, [ctx.exp(x0), ctx.exp(x0+1)], solver=solver, verbosity=0)
    ctx.check(len(solved) == 2 and len(bst.sols) == 2, "flat: every bound is solved")
    for i, (_, y, s) in enumerate(solved):
        ctx.eq(bst.costs[i], y, "flat: cost at a bound")
        senss = bst.sols[i]["sensitivities"]["variables"][a.key]
        ctx.eq(senss, s, "flat: slope at a bound, zero included")


HARNESSES = [
    Harness("tol", h_tol, "any two points of any convex function", check_timeout=60000),
    Harness("none", h_none, "any two points of any convex function, any query between", check_timeout=60000),
    Harness("split", h_split, "3-4 solves on [1, e], the first 3 of 16 convex numeric data, the 4th any", check_timeout=60000),
    Harness("lookup", h_lookup, "3 intervals of arbitrary data, any query, 4 kinds of lookup", check_timeout=60000, max_paths=12000),
    Harness("solved", h_solved, "3 intervals of arbitrary data"),
    Harness("data", h_data, "2-3 solves"),
    Harness("flat", h_flat, "any slopes between -1 and 1, zero included", check_timeout=60000),
    Harness("split-level", lambda ctx: h_split(ctx, False), "3-4 solves on [1, e], the 3rd at any level, the 4th any",
            tier="thorough", check_timeout=60000, budget=800),
    Harness("split-query", lambda ctx: h_split(ctx, True, True), "as split, looked up anywhere",
            tier="thorough", check_timeout=60000, budget=800),
    Harness("splitq", h_splitq, "3 solves of any convex function on [1, e], any query", check_timeout=60000),
]
