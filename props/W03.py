"Sweeping leaves the model unchanged"
import contextlib
import io
import gpkit.constraints.gp as gpmod
from .gplib import *
from gpkit import Model
from gpkit.exceptions import Infeasible, UnknownInfeasible, PrimalInfeasible

NOTE = "solves are answered with symbolic numbers, or fail, at every point of the sweep"


class Solver:
    "answers each solve, or raises at the chosen one"
    def __init__(self, ctx, m, fail=None, error=None, sens=None):
        self.__name__ = "fake"
        self.ctx, self.m, self.fail, self.error, self.n, self.sens = ctx, m, fail, error, 0, sens

    def __call__(self, *, c, A, k, p_idxs, meq_idxs, **_):
        ctx, t = self.ctx, self.n
        self.n += 1
        if t == self.fail:
            raise self.error
        if self.sens is not None and t < len(self.sens):
            obj, nu = self.sens[t]
        else:
            obj, nu = 1.0 + t, None
        nv = 1 + max(j for j, v in zip(A.col, A.data)) if A.col else 0
        return dict(objective=obj, primal=arr(ctx, [0.25]*nv),
                    nu=arr(ctx, nu if nu is not None else [1.0]*len(c)))


@contextlib.contextmanager
def unchecked():
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        gpmod.GeometricProgram.check_solution = real


def raw(subs):
    "what is stored, exactly"
    out = {}
    for k in list(subs):
        v = dict.__getitem__(subs, k)
        if hasattr(v, "shape"):
            out[k] = ("array", v.shape, list(v.flat))
        else:
            out[k] = ("plain", type(v), v)
    return out


def is_nan(v):
    return isinstance(v, float) and v != v


def same(ctx, a, b, tag):
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
        if is_nan(a) or is_nan(b):
            ctx.check(is_nan(a) and is_nan(b), tag)
        else:
            ctx.eq(a, b, tag)
    else:
        ctx.check(a is b or (type(a) is type(b) and a == b), tag)


def same_subs(ctx, before, after, tag):
    ctx.check(set(before) == set(after), tag+": the same variables are fixed")
    for k, old in before.items():
        new = after[k]
        ctx.check(old[0] == new[0], tag+": the same kind of value")
        if old[0] == "array":
            ctx.check(old[1] == new[1], tag+": the same shape")
            for o, n in zip(old[2], new[2]):
                same(ctx, o, n, tag+": the same values")
        else:
            same(ctx, old[2], new[2], tag+": the same value")


def same_problem(ctx, p, q, tag):
    ctx.check(list(p.k) == list(q.k) and len(p.cs) == len(q.cs), tag+": problem size")
    for a, b in zip(p.cs, q.cs):
        ctx.eq(a, b, tag+": coefficients")
    ctx.check([vk.name for vk in p.varlocs] == [vk.name for vk in q.varlocs]
              and p.A.row == q.A.row and p.A.col == q.A.col, tag+": variables and exponents")


def world(ctx):
    x, y, z = X("x"), X("y"), X("z")
    v = VectorVariable(3, "v")
    other = ctx.pos("other")
    m = Model(x, [x >= y*z + v.sum(), x >= z, z >= other])
    kind = ctx.choice("original", 8)
    w0 = ctx.pos("v0")
    vec = [w0, 2.0, 3.0]
    if kind == 0:
        pass                                    # absent
    elif kind == 1:
        m.substitutions[y] = 0
    elif kind == 2:
        m.substitutions[y] = 0.0
    elif kind == 3:
        m.substitutions[y] = ctx.pos("y0")
    elif kind == 4:
        m.substitutions[y] = gpkit.units("ft")*4/gpkit.units("ft")
    elif kind == 5:
        m.substitutions[y] = lambda c: 2*c[v[1]]
    elif kind == 6:
        m.substitutions[y] = ("sweep", [1.0, 2.0])
    else:
        m.substitutions[y] = ctx.real("r0")**2
    m.substitutions[v] = arr(ctx, vec)
    return m, x, y, z, v


def h_sweep(ctx):
    "Model.sweep of a number"
    m, x, y, z, v = world(ctx)
    byname = ctx.boolean("byname")
    fail = [None, 0, 1][ctx.choice("fail", 3)]
    error = [PrimalInfeasible("no"), ValueError("boom")][ctx.choice("error", 2)] if fail is not None else None
    skip = ctx.boolean("skip") if fail is not None else False
    before, ref = raw(m.substitutions), m.substitutions
    ctx.check(len(before) in (1, 2), "the world is as meant")
    vals = [ctx.pos("s0"), ctx.pos("s1")]
    raised = None
    with unchecked():
        try:
            m.sweep({"y" if byname else y: vals}, solver=Solver(ctx, m, fail, error),
                    skipsweepfailures=skip, verbosity=0)
        except (RuntimeWarning, Infeasible) as e:
            raised = e
    ctx.check((raised is not None) == (fail is not None and not skip), "fails when it should")
    same_subs(ctx, before, raw(m.substitutions), "sweep")
    ctx.check((y in m.substitutions) == (y.key in before), "y is as fixed as before")
    same_subs(ctx, before, raw(ref), "sweep: the substitutions someone kept")


def h_vector(ctx):
    "sweeps of whole vectors and of their elements"
    x = X("x")
    v = VectorVariable(2, "v")
    m = Model(x, [x >= v.prod(), v >= 0.5])
    kind = ctx.choice("original", 6)
    if kind == 1:
        m.substitutions[v] = arr(ctx, [ctx.pos("v0"), ctx.pos("v1")])
    elif kind == 2:
        m.substitutions[v[0]] = ctx.pos("v0")
    elif kind == 3:
        m.substitutions[v[1]] = ctx.pos("v1")
    elif kind == 4:
        m.substitutions[v] = arr(ctx, [0.0, 0.0])
    elif kind == 5:
        m.substitutions[v[0]] = 0.0
    before, ref = raw(m.substitutions), m.substitutions
    what = ctx.choice("what", 3)
    fail = [None, 1][ctx.choice("fail", 2)]
    s = [ctx.pos("s%d" % i) for i in range(4)]
    if what == 0:
        sweeps = {v[0]: [s[0], s[1]]}
    elif what == 1:
        sweeps = {v[1]: [s[0], s[1]]}
    else:
        sweeps = {v: [arr(ctx, s[:2]), arr(ctx, s[2:])]}
    with unchecked():
        try:
            m.sweep(sweeps, solver=Solver(ctx, m, fail, PrimalInfeasible("no")), verbosity=0)
        except RuntimeWarning:
            pass
    same_subs(ctx, before, raw(m.substitutions), "vector")
    same_subs(ctx, before, raw(ref), "vector: the substitutions someone kept")


def h_several(ctx):
    "two variables swept one after the other"
    m, x, y, z, v = world(ctx)
    if ctx.boolean("zfixed"):
        m.substitutions[z] = ctx.pos("z0") if ctx.boolean("znonzero") else 0.0
    before = raw(m.substitutions)
    kind = ctx.choice("fail", 4)
    fail = [None, 1, 2, 3][kind]
    sweeps = {y: [ctx.pos("s0"), ctx.pos("s1")], z: [ctx.pos("t0"), ctx.pos("t1")]}
    with unchecked():
        try:
            m.sweep(sweeps, solver=Solver(ctx, m, fail, PrimalInfeasible("no")), verbosity=0)
        except Exception:       # pylint: disable=broad-except
            pass                # e.g. unbounded with z free
    same_subs(ctx, before, raw(m.substitutions), "several")


def h_auto(ctx):
    "autosweeps, successful or failed"
    m, x, y, z, v = world(ctx)
    before, ref = raw(m.substitutions), m.substitutions
    fail = [None, 0, 1, 2][ctx.choice("fail", 4)]
    error = [PrimalInfeasible("no"), ValueError("boom")][ctx.choice("error", 2)] if fail is not None else None
    how = ctx.choice("how", 2)
    # answers: 1 at both ends with slopes that disagree, so one split, then flat
    n = 9
    raised = None
    with unchecked():
        try:
            kw = dict(solver=Solver(ctx, m, fail, error, sens=None), verbosity=0)
            if how:
                m.autosweep({"y": (1.0, 2.0)}, tol=0.5, samplepoints=3, **kw)
            else:
                gpkit.tools.autosweep.autosweep_1d(m, 0.5, y.key, [1.0, 2.0], **kw)
        except Exception as e:      # pylint: disable=broad-except
            raised = e
    if fail is not None and fail < 2:
        ctx.check(raised is not None, "a failed solve ends the autosweep")
    same_subs(ctx, before, raw(m.substitutions), "autosweep")
    same_subs(ctx, before, raw(ref), "autosweep: the substitutions someone kept")


def h_problem(ctx):
    "the problem solved afterwards is the one before"
    x, y, z = X("x"), X("y"), X("z")
    y0, c = ctx.pos("y0"), ctx.pos("c")
    m = Model(x, [x >= c*y*z + z, z >= y])
    zero = ctx.choice("original", 2)
    m.substitutions[y] = y0 if not zero else 0.0
    before = m.gp(checkbounds=False)
    auto = ctx.choice("auto", 2)
    fail = [None, 0, 1][ctx.choice("fail", 3)]
    with unchecked():
        try:
            solver = Solver(ctx, m, fail, PrimalInfeasible("no"))
            if auto:
                m.autosweep({y: (1.0, 2.0)}, tol=5.0, samplepoints=2, solver=solver, verbosity=0)
            else:
                m.sweep({y: [ctx.pos("s0"), ctx.pos("s1"), 0.0]}, solver=solver, verbosity=0)
        except Exception:       # pylint: disable=broad-except
            pass                # e.g. unbounded at zero
    after = m.gp(checkbounds=False)
    same_problem(ctx, before, after, "afterwards")


def h_sp(ctx):
    "sweeps of signomial programs"
    x, y = X("x"), X("y")
    with SignomialsEnabled():
        m = Model(x, [x + y >= 2, y <= 0.5])
    m.substitutions[y] = 0.25
    if ctx.boolean("absent"):
        del m.substitutions[y]
    elif ctx.boolean("zero"):
        m.substitutions[y] = 0.0
    before = raw(m.substitutions)
    raised = None
    with unchecked():
        try:
            m.sweep({y: [ctx.pos("s0")]}, solver=Solver(ctx, m, [None, 0][ctx.choice("fail", 2)],
                                                        ValueError("boom")), verbosity=0)
        except Exception as e:      # pylint: disable=broad-except
            raised = e
    same_subs(ctx, before, raw(m.substitutions), "sp")


HARNESSES = [
    Harness("sweep", h_sweep, "8 original values; 2 points, either may fail in 2 ways, skipped or not; by key or name"),
    Harness("vector", h_vector, "2-vector, 6 original states; elements or the whole swept; success or failure"),
    Harness("several", h_several, "2 variables swept in turn, failing at any solve"),
    Harness("auto", h_auto, "autosweep, 8 original values, failing at solve 0, 1, 2 or never"),
    Harness("problem", h_problem, "compiled problem before and after"),
    Harness("sp", h_sp, "signomial program, absent/zero/positive original"),
]
