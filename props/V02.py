"Plots show the values of the solution they are made from"
import contextlib
import sys
import types
import matplotlib
import numpy as np
from .gplib import *
from .textlib import printing
from .D01 import swept_model
from .W02 import Auto, unchecked
import gpkit.interactive.plot_sweep as plot_sweep
import gpkit.interactive.plotting as plotting
from gpkit import Model, GPCOLORS
from gpkit.interactive.plot_sweep import plot_1dsweepgrid
from gpkit.interactive.plotting import compare, plot_convergence

NOTE = ("axes are stand-ins that keep what's drawn on them; every value of the solutions is symbolic, in solutions "
        "as solve() and sweeps make them.")


class Anything:
    "takes any call"
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *args, **kwargs):
        return Anything()


class Axis:
    "keeps what is drawn on it"
    def __init__(self):
        self.lines, self.fills, self.xlabel, self.ylabel, self.ticks = [], [], None, None, None
        self.xaxis = self.yaxis = Anything()
        self.spines = {side: Anything() for side in ("left", "right", "top", "bottom")}

    def plot(self, x, y, *args, **kwargs):
        self.lines.append((x, y, args, kwargs))

    def fill_between(self, x, lo, hi, **kwargs):
        self.fills.append((x, lo, hi, kwargs))

    def set_xlabel(self, text, **_):
        self.xlabel = text

    def set_ylabel(self, text, **_):
        self.ylabel = text

    def set_xticks(self, ticks, **_):
        self.ticks = list(ticks)

    def get_xticklabels(self, **_):
        return []
    get_yticklabels = get_xticklabels

    def __getattr__(self, name):
        if name.startswith("__") or name == "key":
            raise AttributeError(name)
        return Anything()


class Plt(types.ModuleType):
    "stands in for pyplot"
    def __init__(self):
        types.ModuleType.__init__(self, "matplotlib.pyplot")
        self.made = []

    def subplots(self, nrows=1, ncols=1, **_):
        axes = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                axes[i, j] = Axis()
        self.made.append(axes)
        axes = axes[0] if nrows == 1 else axes[:, 0] if ncols == 1 else axes
        return Anything(), (axes[0] if axes.shape == (1,) else axes)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


@contextlib.contextmanager
def pyplot(ctx):
    "plots go to a stand-in"
    plt = Plt()
    mods = [(plot_sweep, "plt"), (plotting, "plt"), (matplotlib, "pyplot")]
    real = [getattr(mod, name, None) for mod, name in mods]
    realmod = sys.modules.get("matplotlib.pyplot")
    for mod, name in mods:
        setattr(mod, name, plt)
    sys.modules["matplotlib.pyplot"] = plt
    try:
        with printing(ctx):
            yield plt
    finally:
        for (mod, name), val in zip(mods, real):
            setattr(mod, name, val)
        sys.modules["matplotlib.pyplot"] = realmod


def nums(values):
    "the numbers drawn, as a list of (lists of) numbers"
    if hasattr(values, "magnitude"):
        values = values.magnitude
    return [nums(v) if isinstance(v, np.ndarray) and v.shape else getattr(v, "magnitude", v) for v in values]


def same(ctx, got, want, tag):
    got, want = nums(got), nums(want)
    if ctx.check(len(got) == len(want), tag+": as many points as there are") is False:
        return
    for g, w in zip(got, want):
        if isinstance(w, list) or isinstance(g, list):
            if isinstance(g, list) and isinstance(w, list):
                same(ctx, g, w, tag)
            else:
                ctx.check(False, tag+": as many lines as there are")
        else:
            ctx.eq(g, w, tag)


def once(ctx, ax, x, y, tag):
    "the axis has one line, with these points"
    ctx.check(len(ax.lines) == 1 and not ax.fills, tag+": one line")
    same(ctx, ax.lines[0][0], x, tag+": x")
    same(ctx, ax.lines[0][1], y, tag+": y")


def h_sweep(ctx):
    "a solved sweep"
    a, b, form = ctx.choice("first", 9), ctx.choice("second", 9), ctx.choice("form", 4)
    ctx.assume(b == 0 if form < 2 else b in (0, 3, 6) if form == 2 else a == 3)
    given = ctx.boolean("axes") if form < 3 else False
    falling = form in (1, 2) and a == 3 and ctx.boolean("falling")
    sol, want = swept_model(ctx, 2, falling)
    byname = {str(k): k for k in want}
    def var(name):
        return byname[name], want[byname[name]][2]
    (z, zs), (xa, xas), (w, ws), (v, vs), (k, ks) = map(var, ("A.z", "A.x", "w[:]" if "w[:]" in byname else "w",
                                                             "A.v[:]" if "A.v[:]" in byname else "A.v", "k"))
    zvar, xvar = gpkit.nomials.Variable(**z.descr), gpkit.nomials.Variable(**xa.descr)
    cost = list(sol["cost"])
    opts = [(None, cost, "cost"), ("cost", cost, "cost"), (zvar, zs, "its label [ft]"), (xvar, xas, "x [m]"),
            ("A.x", xas, "A.x"), ("z", zs, "z"), (zvar*xvar**2, [a*b**2 for a, b in zip(zs, xas)], None),
            (zvar + 2*zvar**2/zvar, [3*a for a in zs], None), ("k", ks, "k")]
    if form == 0:       # alone
        posys, chosen = opts[a][0], [opts[a]]
    elif form == 1:
        posys, chosen = [opts[a][0]], [opts[a]]
    else:
        posys, chosen = [opts[a][0], opts[b][0]], [opts[a], opts[b]]
    if form == 3:
        posys = tuple(posys)
    axes = [Axis() for _ in chosen] if given else None
    before = list(posys) if isinstance(posys, list) else None
    with pyplot(ctx) as plt:
        _, out = sol.plot(posys, axes)
    if not given:
        if ctx.check(len(plt.made) == 1 and plt.made[0].size == len(chosen), "an axis for each") is False:
            return
        axes = list(plt.made[0].flat)
    ctx.check(out is axes[0] if len(chosen) == 1 else list(out) == axes, "axes are returned")
    for ax, (_, y, label) in zip(axes, chosen):
        once(ctx, ax, ks, y, "sweep")
        if not given and label:
            ctx.check(ax.ylabel == label, "y label")
    if not given:
        ctx.check(axes[-1].xlabel == "k [m]", "x label")
    if before is not None:
        ctx.check(len(posys) == len(before) and all(p is q for p, q in zip(posys, before)), "list is left as it was")


def h_auto(ctx):
    "an autosweep"
    auto = Auto(ctx, 2)
    auto.run(100.0)     # any gap will do
    at = [ctx.exp(auto.x0 + (auto.x1-auto.x0)/4), ctx.exp(auto.x1)]
    oracle = auto.bst.sample_at(at)
    opts = [None, "cost", auto.m.cost, auto.x, auto.a, auto.x.key.name, auto.x*auto.a]
    a, b = ctx.choice("first", len(opts)), ctx.choice("second", len(opts))
    form = ctx.choice("form", 2)
    ctx.assume(b == 0 if form else b in (0, 3, 6))
    posys = opts[a] if form else [opts[a], opts[b]]
    before = None if form else list(posys)
    chosen = [opts[a]] if form else list(posys)
    with pyplot(ctx) as plt:
        _, out = oracle.plot(posys)
    axes = list(plt.made[0].flat)
    ctx.check(out is axes[0] if form else list(out) == axes, "axes are returned")
    lb, ub = oracle.cost_lb(), oracle.cost_ub()
    for ax, posy in zip(axes, chosen):
        if posy is None or posy is auto.m.cost or (type(posy) is str and posy == "cost"):
            ctx.check(len(ax.fills) == 1 and not ax.lines, "auto: one band")
            same(ctx, ax.fills[0][0], at, "auto: x")
            same(ctx, ax.fills[0][1], lb, "auto: lower bound")
            same(ctx, ax.fills[0][2], ub, "auto: upper bound")
        else:
            once(ctx, ax, at, oracle(posy), "auto")
    ctx.check(axes[-1].xlabel == "%s [-]" % auto.a.key.name, "x label")
    if before is not None:
        ctx.check(len(posys) == len(before) and all(p is q for p, q in zip(posys, before)), "list is left as it was")


class Grid:
    "a model whose every solve has values of its own"
    def __init__(self, ctx, free):
        self.ctx = ctx
        self.x, self.k, self.h = X("x", "m"), X("k", "m"), X("h", "ft", "height")
        self.kv, self.hv, self.gv = ctx.pos("k"), ctx.pos("h"), ctx.pos("g")
        self.g = X("g", "ft")
        self.m = Model(self.x*self.h, [self.x >= self.k/2, self.h >= self.g])
        self.m.substitutions.update({self.k: self.kv, self.g: self.gv})
        if not free:
            self.m.substitutions[self.h] = self.hv
            self.m = Model(self.x, [self.x >= self.k/2, self.x >= self.h/3, self.x >= self.g/5],
                           self.m.substitutions)
        self.free = free
        self.calls = []     # (k, h or None, value of x, value of h, cost)

    def solver(self, *, c, A, k, p_idxs, meq_idxs, **_):
        ctx, t = self.ctx, len(self.calls)
        gp = [gp for gp in self.programs()][0]
        free = {vk.name for vk in gp.varlocs}
        vals = {"x": ctx.pos("x_%d" % t), "h": ctx.pos("h_%d" % t)}
        names = [vk.name for vk in gp.varlocs]
        cost = ctx.pos("c_%d" % t)
        self.calls.append(dict(vals, free=free, cost=cost, c=list(c)))
        return dict(objective=cost, primal=arr(ctx, [ctx.log(vals[n]) for n in names]),
                    nu=arr(ctx, [1.0+i for i in range(len(c))]))

    def programs(self):
        prog = self.m.program
        return [prog[-1] if isinstance(prog, list) else prog]


def h_grid(ctx):
    "plot_1dsweepgrid"
    free = ctx.choice("free", 2)
    g = Grid(ctx, free)
    m = g.m
    two = ctx.choice("two", 2)
    names = ctx.choice("names", 2)
    k1, k2, h1, h2 = [ctx.pos(n) for n in ("k1", "k2", "h1", "h2")]
    ctx.assume(k2 > k1)
    ctx.assume(h2 > h1)
    ctx.assume(h1 > g.gv)
    key = (lambda v: v.key.name) if names else (lambda v: v)
    sweeps = {key(g.k): [k1, k2]}
    if two:
        sweeps[key(g.h)] = [h1, h2]
    ctx.assume(two or not free)
    opts = [("cost", "cost", "cost"), (g.x, "x", "x [m]"), ("x", "x", "x"), (g.x**2, "sq", None)]
    a = ctx.choice("first", len(opts))
    form = ctx.choice("form", 4)
    ctx.assume(form == 0 if names else True)
    ctx.assume(a in (0, 3) if form >= 2 else True)
    if form == 0:
        posys, chosen = opts[a][0], [opts[a]]
    elif form == 1:
        posys, chosen = [opts[a][0]], [opts[a]]
    elif form == 2:
        posys, chosen = [opts[a][0], g.x, None], [opts[a], opts[1], opts[0]]
    else:
        posys, chosen = [opts[a][0], g.x], [opts[a], opts[1]]
    hadsol = ctx.boolean("solved")
    ctx.assume(not (hadsol and names))
    subs = dict(m.substitutions)
    kw = {}
    def val(call, what):
        return call["x"]**2 if what == "sq" else call[what]
    with unchecked(), pyplot(ctx) as plt:
        if hadsol:
            kw["origsol"] = m.solve(g.solver, verbosity=0)
        _, out = plot_1dsweepgrid(m, sweeps, posys, solver=g.solver, verbosity=0, **kw)
    ctx.check(len(g.calls) == 1 + 2*len(sweeps), "a solve for each point")
    if ctx.check(len(plt.made) == 1 and plt.made[0].shape == (len(chosen), len(sweeps)), "an axis for each") is False:
        return
    orig, rest = g.calls[0], g.calls[1:]
    for j, (pts, at, label) in enumerate([([k1, k2], g.kv, "k [m]"), ([h1, h2], g.hv, "height [ft]")][:len(sweeps)]):
        calls = rest[2*j:2*j+2]
        for call, pt in zip(calls, pts):
            vals = {"k": g.kv, "h": None if free else g.hv}
            vals["kh"[j]] = pt
            # constraints with the constants of that point
            ctx.check(("h" in call["free"]) == (vals["h"] is None), "only swept variables are given values")
            if not free:
                for want in (vals["k"]/2, vals["h"]*0.3048/3, g.gv*0.3048/5):
                    ctx.eq(min_dist(ctx, call["c"], want), 0*want, "points are solved with the other constants as "
                                                                  "they were")
        for i, (_, what, ylabel) in enumerate(chosen):
            ax = plt.made[0][i, j]
            dots = 0 if free and j else 1
            if ctx.check(len(ax.lines) == 1 + dots, "a line, and a dot if it had a value") is False:
                continue
            same(ctx, ax.lines[0][0], pts, "grid: x")
            same(ctx, ax.lines[0][1], [val(c, what) for c in calls], "grid: y")
            if dots:
                dx, dy = ax.lines[1][:2]
                ctx.eq(getattr(dx, "magnitude", dx), at, "dot: x")
                ctx.eq(getattr(dy, "magnitude", getattr(dy, "value", dy)), val(orig, what), "dot: y")
            if j == 0 and ylabel:
                ctx.check(ax.ylabel == ylabel, "y label")
        ctx.check(plt.made[0][len(chosen)-1, j].xlabel == label, "x label")
    ctx.check(set(m.substitutions) == set(subs), "substitutions are left as they were")
    for key, v in subs.items():
        ctx.eq(m.substitutions[key], v, "substitutions are left as they were")


def min_dist(ctx, cs, want):
    "the smallest difference between want and any of cs, known by position: only one can be equal"
    out = None
    for c in cs:
        d = c - want
        if ctx.concrete:
            out = d if out is None or abs(d) < abs(out) else out
        else:
            out = d if out is None else out*d
    if ctx.concrete and out is not None and abs(out) < 1e-9*abs(want):
        return 0.0
    return out


def h_range(ctx):
    "plot_1dsweepgrid and ranges"
    g = Grid(ctx, 0)
    m = g.m
    lo, hi = ctx.pos("lo"), ctx.pos("hi")
    ctx.assume(hi > lo)
    tol = ctx.pos("tol")
    made, asked = [], []

    class Swept:
        def plot(self, posys, axes):
            made.append((list(posys), list(axes)))

    def autosweep(sweeps, tol=0.5, **kw):
        asked.append((sweeps, tol, kw))
        return Swept()
    m.autosweep = autosweep
    with unchecked(), pyplot(ctx) as plt:
        plot_1dsweepgrid(m, {g.k: (lo, hi)}, [g.x, "cost"], tol=tol, solver=g.solver, verbosity=0)
    ctx.check(len(asked) == 1 and len(made) == 1, "one autosweep")
    sweeps, gottol, kw = asked[0]
    (key, (l, h)), = sweeps.items()
    ctx.check(key is g.k, "range: variable")
    ctx.eq(l, lo, "range: low")
    ctx.eq(h, hi, "range: high")
    ctx.eq(gottol, tol, "range: tolerance")
    ctx.check(kw.get("solver") == g.solver and kw.get("verbosity") == 0, "range: options")
    ctx.check(made[0][1] == list(plt.made[0].flat), "range: axes")
    for ax, want in zip(made[0][1], (g.calls[0]["x"], g.calls[0]["cost"])):
        ctx.check(len(ax.lines) == 1, "range: dot")
        ctx.eq(ax.lines[0][0], g.kv, "range: dot")
        y = ax.lines[0][1]
        ctx.eq(getattr(y, "magnitude", y), want, "range: dot")


def h_compare(ctx):
    "compare"
    n = 2
    opts = ["cost", "x", "ab", ("x", "cost"), ("ab", "x"), X("x")]
    a, b = ctx.choice("first", len(opts)), ctx.choice("second", len(opts))
    alone = ctx.choice("alone", 2)
    if alone:
        ctx.assume(b == 0)
    ctx.assume(not (alone and isinstance(opts[a], tuple)))
    tol = ctx.pos("tol")
    swept = X("y", "m").key
    asked = []

    class Swept:
        def __init__(self, i):
            self.i = i
            self.bst = types.SimpleNamespace(sweptvar=swept)
            self.sampled_at = [ctx.pos("at%d_%d" % (i, t)) for t in range(2)]

        def _is_cost(self, key):
            return type(key) is str and key == "cost"

        def cost_lb(self):
            return [ctx.pos("lb%d_%d" % (self.i, t)) for t in range(2)]

        def cost_ub(self):
            return [ctx.pos("ub%d_%d" % (self.i, t)) for t in range(2)]

        def __call__(self, key):
            name = getattr(getattr(key, "key", None), "name", key)
            assert name in ("x", "ab"), name
            return [ctx.pos("%s%d_%d" % (name, self.i, t)) for t in range(2)]

    class Mod:
        def __init__(self, i):
            self.sol = Swept(i)

        def autosweep(self, sweeps, tol=0.5, **kw):
            asked.append((self, sweeps, tol))
            return self.sol
    models = [Mod(i) for i in range(n)]
    sweeps = {"y": (1, 2)}
    posys = opts[a] if alone else [opts[a], opts[b]]
    with pyplot(ctx) as plt:
        compare(models, sweeps, posys, tol)
    ctx.check([m for m, _, _ in asked] == models, "every model is swept once")
    for _, s, t in asked:
        ctx.check(s == sweeps, "compare: sweeps")
        ctx.eq(t, tol, "compare: tolerance")
    chosen = [opts[a]] if alone else posys
    if ctx.check(len(plt.made) == 1 and plt.made[0].size == len(chosen), "an axis for each") is False:
        return
    for ax, posy in zip(plt.made[0].flat, chosen):
        lines, fills = list(ax.lines), list(ax.fills)
        for i, mod in enumerate(models):
            p = posy[i] if isinstance(posy, tuple) else posy
            sol = mod.sol
            if sol._is_cost(p):
                if ctx.check(bool(fills), "compare: a band for each model") is False:
                    break
                x, lo, hi, kw = fills.pop(0)
                same(ctx, lo, sol.cost_lb(), "compare: lower bound")
                same(ctx, hi, sol.cost_ub(), "compare: upper bound")
                ctx.check(kw.get("facecolor") == GPCOLORS[i], "compare: colour")
            else:
                if ctx.check(bool(lines), "compare: a line for each model") is False:
                    break
                x, y, _, kw = lines.pop(0)
                same(ctx, y, sol(p), "compare: y")
                ctx.check(kw.get("color") == GPCOLORS[i], "compare: colour")
            same(ctx, x, sol.sampled_at, "compare: x")
        ctx.check(not lines and not fills, "compare: nothing else")
    ctx.check(list(plt.made[0].flat)[-1].xlabel == "y [m]", "compare: x label")


def h_convergence(ctx):
    "plot_convergence"
    n = 1 + ctx.choice("n", 4)
    gps, want = [], []
    for i in range(n):
        cost = ctx.pos("cost%d" % i)
        failed = ctx.boolean("failed%d" % i)
        gps.append(types.SimpleNamespace(result=None if failed else {"cost": cost}))
        if not failed:
            want.append((i+1, cost))
    model = types.SimpleNamespace(program=types.SimpleNamespace(gps=gps))
    with pyplot(ctx) as plt:
        plot_convergence(model)
    ax, = plt.made[0].flat
    once(ctx, ax, [i for i, _ in want], [c for _, c in want], "convergence")
    ctx.check(ax.ticks == list(range(1, n+1)), "ticks")


HARNESSES = [
    Harness("sweep", h_sweep, "SolutionArray.plot: a sweep of 2 points (rising or falling) over 10 variables of two submodels, with and "
            "without axes; one or two of: the cost, a variable, a name, nomials, a posynomial. "+NOTE,
            max_paths=4000),
    Harness("auto", h_auto, "SolutionOracle.plot: an autosweep between 2 solves, sampled at 2 points; one or two of: "
            "the cost (three ways), variables, a name, a monomial. "+NOTE, max_paths=4000),
    Harness("grid", h_grid, "plot_1dsweepgrid: one or two swept variables of 2 points, by variable or name, with or "
            "without values of their own, solved before or not; one, two or three things plotted. "+NOTE, max_paths=16000),
    Harness("range", h_range, "plot_1dsweepgrid with a range for an autosweep (stubbed). "+NOTE),
    Harness("compare", h_compare, "compare: 2 models with arbitrary autosweeps of 2 points; one or two plots of costs, "
            "names (one as long as the list of models), variables and tuples with one per model. "+NOTE),
    Harness("convergence", h_convergence, "plot_convergence: up to 4 GPs, any of which failed, with symbolic costs. "
            +NOTE),
]
