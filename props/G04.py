"The MOSEK interfaces translate faithfully both ways"
import os
import shutil
import sys
import tempfile
import types
import numpy as np
import gpkit
from .gplib import *
from gpkit import Model
from gpkit.small_classes import CootMatrix
from gpkit.exceptions import (UnknownInfeasible, DualInfeasible, PrimalInfeasible,
                              InvalidLicense)
from gpkit.constraints.gp import MonoEqualityIndexes


# ------------------------------------------------------------ a stand-in for MOSEK
class _Enum:
    def __init__(self, name):
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self._name+"."+k


class MosekError(Exception):
    def __init__(self, errno=None, msg=None):
        Exception.__init__(self, msg)
        self.errno, self.msg = errno, msg


FAKE = types.ModuleType("mosek")
for _n in ("boundkey", "conetype", "objsense", "streamtype", "iparam", "onoffkey",
           "soltype", "solsta", "rescode", "prosta", "sparam", "dparam", "solitem"):
    setattr(FAKE, _n, _Enum(_n))
FAKE.Error = MosekError
FAKE.hooks = {}


class Task:
    "records the problem; answers what it is told to"
    def __init__(self, numcon=0, numvar=0):
        self.ncon, self.nvar = numcon, numvar
        self.vb, self.cb, self.A, self.c, self.cones = {}, {}, {}, {}, []
        self.sense = None
        FAKE.hooks.setdefault("tasks", []).append(self)

    def appendvars(self, n):
        self.nvar += int(n)

    def appendcons(self, n):
        self.ncon += int(n)

    def _bounds(self, store, n, idx, keys, lo, up):
        idx = [int(i) for i in idx]
        assert len(idx) == len(list(keys)) == len(list(lo)) == len(list(up))
        for i, k, l, u in zip(idx, keys, lo, up):
            assert 0 <= i < n, "index out of range"
            store[i] = (k.split(".")[1], l, u)

    def putvarboundlist(self, idx, keys, lo, up):
        self._bounds(self.vb, self.nvar, idx, keys, lo, up)

    def putconboundlist(self, idx, keys, lo, up):
        self._bounds(self.cb, self.ncon, idx, keys, lo, up)

    def putvarbound(self, i, k, l, u):
        self.putvarboundlist([i], [k], [l], [u])

    def putconbound(self, i, k, l, u):
        self.putconboundlist([i], [k], [l], [u])

    def putaijlist(self, rows, cols, vals):
        assert len(list(rows)) == len(list(cols)) == len(list(vals))
        for i, j, v in zip(rows, cols, vals):
            assert 0 <= int(i) < self.ncon and 0 <= int(j) < self.nvar, "index out of range"
            self.A[int(i), int(j)] = v   # assigns, does not add

    def putaij(self, i, j, v):
        self.putaijlist([i], [j], [v])

    def appendconesseq(self, types_, pars, nums, j):
        j = int(j)
        for t, n in zip(types_, nums):
            assert t == "conetype.pexp" and n == 3
            assert j+3 <= self.nvar
            self.cones.append((j, j+1, j+2))
            j += 3

    def appendcone(self, t, par, members):
        self.cones.append(tuple(int(i) for i in members))

    def putclist(self, idx, vals):
        for i, v in zip(idx, vals):
            self.c[int(i)] = v

    def putcj(self, i, v):
        self.c[int(i)] = v

    def putobjsense(self, s):
        self.sense = s.split(".")[1]

    def optimize(self):
        return FAKE.hooks["optimize"](self)

    def getsolsta(self, which):
        return FAKE.hooks["status"]

    def _slice(self, name, first, last, out, n):
        first, last = int(first), int(last)
        assert 0 <= first <= last <= n and (out is None or len(out) == last-first)
        vals = [FAKE.hooks[name](self, i) for i in range(first, last)]
        if out is not None:
            out[:] = vals
        return vals

    def getxxslice(self, which, first, last, out=None):
        return self._slice("xx", first, last, out, self.nvar)

    def getsuxslice(self, which, first, last, out=None):
        return self._slice("sux", first, last, out, self.nvar)

    def getsucslice(self, which, first, last, out=None):
        return self._slice("suc", first, last, out, self.ncon)

    def getprimalobj(self, which):
        return FAKE.hooks["f"]

    def set_Stream(self, *a):
        pass
    putintparam = putdouparam = putstrparam = solutionsummary = set_Stream

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Env:
    def Task(self, *a):
        return Task(*a)

    def set_Stream(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


FAKE.Env, FAKE.Task = Env, Task
sys.modules["mosek"] = FAKE
import gpkit.solvers.mosek_conif as conif      # noqa
import gpkit.solvers.mosek_cli as cli          # noqa


def kstr(v):
    return v.key() if hasattr(v, "key") and callable(v.key) else round(float(v), 12)


def sig(row):
    return tuple(sorted((j, kstr(v)) for j, v in row.items() if v != 0))


def rowsof(c, exps, k):
    out, at = [], 0
    for n in k:
        out.append([(exps[i], c[i]) for i in range(at, at+n)])
        at += n
    return out


# ------------------------------------------------------------ conic interface
def understand(ctx, task, m, tag):
    """eliminates the cones:  blocks [(z or None, rows [(exps, log const)])],
    linear rows [(con, exps, log const)]; z is the epigraph variable"""
    rows = {}
    for (i, j), v in task.A.items():
        rows.setdefault(i, {})[j] = v
    ctx.check(task.sense == "minimize", tag+": minimised")
    owner = {}
    for a, b, c in task.cones:
        kind, lo, up = task.vb[b]
        ctx.check(kind == "fx" and lo == 1, tag+": cones are exponentials")
        for v in (a, c):
            ctx.check(task.vb[v][0] == "fr", tag+": cone members are otherwise free")
        owner[a] = c
    exponent_of, used = {}, set()
    for a, c in owner.items():
        mine = [i for i, r in rows.items() if c in r]
        ctx.check(len(mine) == 1 and task.cb[mine[0]][0] == "fx", tag+": each exponent is defined once")
        i, = mine
        used.add(i)
        gamma = rows[i][c]
        rhs = task.cb[i][1]
        ctx.eq(task.cb[i][1], task.cb[i][2], tag+": equalities")
        exponent_of[a] = ({j: -v/gamma for j, v in rows[i].items() if j != c}, rhs/gamma)
    blocks, lin = [], []
    for i in sorted(task.cb):
        if i in used:
            continue
        kind, lo, up = task.cb[i]
        ctx.check(kind == "up", tag+": the rest are inequalities")
        row = rows.get(i, {})
        cone = [j for j in row if j in owner]
        if not cone:
            ctx.check(all(j < m for j in row), tag+": linear rows are of variables")
            lin.append((i, dict(row), -up))
            continue
        ctx.check(len(cone) == len(row), tag+": sums of exponentials")
        zs, members = set(), []
        for j in cone:
            ctx.eq(row[j], 1, tag+": sums of exponentials")
            expr, const = exponent_of[j]
            z = [q for q in expr if q >= m]
            ctx.check(len(z) == 1, tag+": one epigraph variable")
            zs.add(z[0])
            ctx.eq(expr[z[0]], -1, tag+": epigraph")
            members.append(({q: v for q, v in expr.items() if q < m}, const))
        ctx.check(len(zs) == 1, tag+": one epigraph variable each")
        ctx.eq(up, 1, tag+": sums of exponentials")
        z, = zs
        blocks.append((z, members))
        if task.c.get(z, 0) == 0:
            ctx.check(task.vb[z][0] == "up" and task.vb[z][2] == 0, tag+": constraints' epigraphs")
        else:
            ctx.check(task.c[z] == 1 and task.vb[z][0] == "fr", tag+": the objective")
    ctx.check(len({z for z, _ in blocks}) == len(blocks), tag+": epigraph variables are not shared")
    ctx.check(sum(1 for v in task.c.values() if v != 0) == 1, tag+": one objective")
    for j in range(m):
        ctx.check(task.vb[j][0] == "fr", tag+": variables are free")
    return blocks, lin


def conic(ctx, c, k, exps, ncols, call, tag):
    answers = {}

    def answer(kind, f):
        def get(task, i):
            if (kind, i) not in answers:
                answers[kind, i] = f("%s%d" % (kind, i))
            return answers[kind, i]
        return get
    FAKE.hooks.clear()
    FAKE.hooks.update(tasks=[], optimize=lambda t: None, status="solsta.optimal",
                      xx=answer("x", ctx.real), sux=answer("u", ctx.real),
                      suc=answer("s", ctx.real), f=ctx.real("f"))
    out = call()
    task = FAKE.hooks["tasks"][-1]
    blocks, lin = understand(ctx, task, ncols, tag)
    want = rowsof(c, exps, k)
    la = list(out["la"])
    if len(la) == len(k) - 1:
        la = [1] + la
    ctx.check(len(la) == len(k), tag+": one dual value per constraint")
    ctx.eq(la[0], 1, tag+": the cost's dual value")

    def same(members, rows):
        return [sig(r) for r, _ in members] == [sig(r) for r, _ in rows]

    def clipped(v):
        return v if ctx.holds(v >= 0) else 0
    pool = [("u", z, mem) for z, mem in blocks if task.c.get(z, 0) == 0] \
        + [("s", i, [(row, const)]) for i, row, const in lin]
    obj = [mem for z, mem in blocks if task.c.get(z, 0) != 0]
    ctx.check(len(obj) == 1 and same(obj[0], want[0]), tag+": the cost")
    for (_, g), (_, ci) in zip(obj[0], want[0]):
        ctx.eq(g, ctx.log(ci), tag+": the cost")
    for p in range(1, len(k)):
        found = [q for q in pool if same(q[2], want[p])]
        ctx.check(bool(found), tag+": constraint reaches the solver")
        if not found:
            return out, answers
        kind, i, mem = found[0]
        pool.remove(found[0])
        for (_, g), (_, ci) in zip(mem, want[p]):
            ctx.eq(g, ctx.log(ci), tag+": constraint as compiled")
        ctx.check((kind, i) in answers, tag+": constraint's dual value is read")
        ctx.eq(la[p], clipped(answers[kind, i]), tag+": constraint's dual value")
    ctx.check(not pool, tag+": nothing else reaches the solver")
    ctx.check(len(out["primal"]) == ncols, tag+": one value per variable")
    for j in range(ncols):
        ctx.eq(out["primal"][j], answers["x", j], tag+": variables' values")
    ctx.eq(out["objective"], ctx.exp(FAKE.hooks["f"]), tag+": objective")
    ctx.check(out["status"] == "optimal", tag+": status")
    return out, answers


def columns(gp):
    return [{gp.varidxs[vk]: e for vk, e in exp.items()} for exp in gp.exps]


ORDERS = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]]


def shapes(ctx):
    "a program: posynomial and monomial constraints, equalities, orders"
    x, y, z, a = X("x"), X("y"), X("z"), X("a")
    c = [ctx.pos("c%d" % i) for i in range(8)]
    kinds = ctx.choice("kinds", 4)
    cons = [c[0]*x + c[1]*y <= z, x*y >= c[2]*z, c[3]*x*z == y, c[4]*y**2 + c[5]/x + a/2 <= 3*y*z*a]
    cons = [cons[i] for i in ORDERS[ctx.choice("order", 4)]]
    if kinds == 1:
        cons = [k for k in cons if len(k.unsubbed) == 1 and len(k.unsubbed[0].hmap) > 1]
    elif kinds == 2:
        cons = [k for k in cons if len(k.unsubbed[0].hmap) == 1]
    elif kinds == 3:
        cons = cons[:1]
    cost = [c[6]*x*z, c[6]*x + c[7]*y/z, c[6]*y + c[7]][ctx.choice("cost", 3)]
    subs = {a: ctx.pos("va")} if ctx.boolean("fix") else {}
    return Model(cost, cons, subs)


def h_conic(ctx):
    "programs through the conic interface"
    gp = shapes(ctx).gp(checkbounds=False)
    call = lambda: gp.solve("mosek_conif", verbosity=0, gen_result=False)
    out, answers = conic(ctx, gp.cs, gp.k, columns(gp), len(gp.varidxs), call, "conic")


def h_conic_result(ctx):
    "the conic interface's answers in the result"
    x, y = X("x"), X("y")
    c = [ctx.pos("c%d" % i) for i in range(4)]
    cons = [c[0]/x + c[1]/y <= 1, c[2]*x <= y]
    if ctx.boolean("order"):
        cons = cons[::-1]
    gp = Model(x*y, cons).gp(checkbounds=False)
    call = lambda: gp.solve("mosek_conif", verbosity=0, gen_result=False)
    out, answers = conic(ctx, gp.cs, gp.k, columns(gp), 2, call, "result")
    gp.check_solution = lambda *a, **k: None
    res = gp.result
    for vk, j in gp.varidxs.items():
        ctx.eq(res["variables"][vk], ctx.exp(answers["x", j]), "result's variables")
    ctx.eq(res["cost"], out["objective"], "result's cost")
    for con, la in zip(cons, out["la"][1:]):
        ctx.eq(res["sensitivities"]["constraints"][con], la, "result's constraints")


def entries_(ctx, order):
    "unordered matrix entries with repeated zeros, as updated in place"
    e = [(ctx.nonzero if i in (1, 5) else ctx.pos)("e%d" % i) for i in range(7)]
    want = [{0: e[0]}, {1: e[1], 0: e[2]}, {0: 1, 1: e[3]}, {0: -1, 1: e[4]}, {0: e[5], 1: e[6]}]
    trip = [(i, j, v) for i, r in enumerate(want) for j, v in r.items()]
    trip = [trip, trip[::-1], trip[3:]+trip[:3]][order]
    return want, trip


def h_conic_matrix(ctx):
    "arbitrary exponents; entries in any order, with and without linear rows"
    c = [ctx.pos("c%d" % i) for i in range(5)]
    want, trip = entries_(ctx, ctx.choice("order", 3))
    k = [[2, 2, 1], [2, 1, 1, 1], [1, 2, 2], [5], [2, 3]][ctx.choice("k", 5)]
    if ctx.boolean("zeros"):
        trip[2:2] = [(0, 0, 0)]
        trip.append((0, 0, 0))
    A = CootMatrix([t[0] for t in trip], [t[1] for t in trip], [t[2] for t in trip])
    p = np.array([i for i, n in enumerate(k) for _ in range(n)], "int32")
    call = lambda: conif.optimize(c=c, A=A, k=k, p_idxs=p, verbose=ctx.boolean("verbose"))
    conic(ctx, c, k, want, 2, call, "matrix")


def h_conic_failure(ctx):
    "statuses and exceptions of the conic interface"
    x, y = X("x"), X("y")
    gp = Model(x*y, [ctx.pos("c0")/x + ctx.pos("c1")/y <= 1]).gp(checkbounds=False)
    how = ctx.choice("how", 11)
    want = [PrimalInfeasible, DualInfeasible, UnknownInfeasible, UnknownInfeasible,
            UnknownInfeasible, InvalidLicense, InvalidLicense, InvalidLicense,
            UnknownInfeasible, UnknownInfeasible, UnknownInfeasible][how]
    FAKE.hooks.clear()
    zero = lambda t, i: ctx.real("v%d" % i)
    FAKE.hooks.update(tasks=[], status="solsta."+["prim_infeas_cer", "dual_infeas_cer", "unknown",
                                                  "prim_feas", "dual_feas"][how % 5],
                      xx=zero, sux=zero, suc=zero, f=ctx.real("f"))

    def optimize(task):
        if how >= 5:
            if how == 10:
                raise RuntimeError("?")
            raise MosekError("rescode."+["err_missing_license_file", "err_license_version",
                                         "err_license_expired", "err_space", "err_lower_bound_is_a_nan"][how-5])
    FAKE.hooks["optimize"] = optimize
    try:
        gp.solve("mosek_conif", verbosity=0, gen_result=False)
        ctx.check(False, "a failure is not a solution")
    except Exception as e:  # pylint: disable=broad-except
        ctx.check(type(e) is want, "the matching error")


# ------------------------------------------------------------ command line interface
class Tokens:
    """text stands for numbers: each symbolic number is written as a float of
    its own and read back as itself"""
    def __init__(self, ctx):
        self.ctx, self.table, self.n = ctx, {}, 0

    def text(self, v, fmt="%.17e"):
        return fmt % self.number(v)

    def number(self, v):
        if self.ctx.concrete or not hasattr(v, "key") or not callable(v.key):
            return float(v)
        self.n += 1
        t = (1 + self.n/2.0**30)*2.0**(-45 if self.n % 2 else 35)    # every digit counts
        self.table[t] = v
        return t

    def read(self, s):
        s = float(s)
        return self.table.get(s, s)

    def __enter__(self):
        if not self.ctx.concrete:
            from symex.poly import Sym
            self.old = Sym.__float__
            tok = self
            Sym.__float__ = lambda s: tok.number(s)
            self.oldf = vars(cli).get("float")
            cli.float = lambda s: s if type(s) is Sym else tok.read(s)
        return self

    def __exit__(self, *a):
        if not self.ctx.concrete:
            from symex.poly import Sym
            Sym.__float__ = self.old
            cli.float = self.oldf


def parse(text):
    "mskexpopt's input format"
    lines = [ln.split("#")[0].strip() for ln in text.split("\n")]
    nums = [t for ln in lines for t in ln.split() if not ln.startswith("*")]
    it = iter(nums)
    ncon, nvar, nter = int(next(it)), int(next(it)), int(next(it))
    c = [next(it) for _ in range(nter)]
    p = [int(next(it)) for _ in range(nter)]
    rest = list(it)
    assert len(rest) % 3 == 0
    A = [(int(rest[i]), int(rest[i+1]), rest[i+2]) for i in range(0, len(rest), 3)]
    return ncon, nvar, nter, c, p, A


def solution_text(tok, status, solsta, f, x, nu):
    out = ["PROBLEM STATUS      : "+status, "SOLUTION STATUS     : "+solsta,
           "OBJECTIVE           : "+tok.text(f), "", "PRIMAL VARIABLES", "INDEX   ACTIVITY"]
    out += ["%-8d%s   " % (i+1, tok.text(v)) for i, v in enumerate(x)]
    out += ["", "DUAL VARIABLES", "INDEX   ACTIVITY"]
    out += ["%-8d%s   " % (i+1, tok.text(v)) for i, v in enumerate(nu)]
    return "\n".join(out) + "\n\n"


def command_line(ctx, c, k, exps, ncols, solve, tag, reply=None):
    "runs solve(path) with mskexpopt replaced; returns (out, x, nu, f)"
    scratch = tempfile.mkdtemp(prefix="verifG04")
    x = [ctx.real("x%d" % j) for j in range(ncols)]
    nu = [ctx.real("nu%d" % i) for i in range(len(c))]
    f = ctx.real("f")
    seen = []
    tok = Tokens(ctx)

    def run(args, **_):
        args = [str(a) for a in args]
        ctx.check(args[0] == "mskexpopt" and "-sol" in args, tag+": the solver is run")
        with open(args[1]) as fl:
            ncon, nvar, nter, ct, p, A = parse(fl.read())
        seen.append(args)
        ctx.check(ncon == len(k)-1, tag+": number of constraints")
        ctx.check(nvar == ncols, tag+": number of variables")
        ctx.check(nter == len(c), tag+": number of terms")
        ctx.check(p == [i for i, n in enumerate(k) for _ in range(n)], tag+": terms' constraints")
        for t, ci in zip(ct, c):
            ctx.eq(tok.read(t), ci, tag+": coefficients")
        got = {}
        for i, j, v in A:
            v = tok.read(v)
            got[i, j] = got.get((i, j), 0) + v
        for i, e in enumerate(exps):
            for j in range(ncols):
                ctx.eq(got.pop((i, j), 0), e.get(j, 0), tag+": exponents")
        ctx.check(not got, tag+": nothing else is written")
        sol = args[args.index("-sol")+1]
        if reply:
            return reply(sol)
        with open(sol, "w") as fl:
            fl.write(solution_text(tok, "PRIMAL_AND_DUAL_FEASIBLE", "OPTIMAL", f, x, nu))
        return b"log\nlines\n"
    real = cli.check_output, cli.tempfile.mkdtemp
    cli.check_output = run
    cli.tempfile.mkdtemp = lambda *a, **k_: scratch
    try:
        with tok:
            out = solve(scratch)
            ctx.check(len(seen) == 1, tag+": the solver is run once")
            return out, x, nu, f
    finally:
        cli.check_output, cli.tempfile.mkdtemp = real
        shutil.rmtree(scratch, ignore_errors=True)


def h_file(ctx):
    "programs through the command line interface"
    gp = shapes(ctx).gp(checkbounds=False)
    given = ctx.boolean("path")

    def solve(scratch):
        kw = {"path": scratch} if given else {}
        out = gp.solve("mosek_cli", verbosity=0, gen_result=False, **kw)
        ctx.check(os.path.exists(scratch) == given, "file: a given directory is kept, a temporary one removed")
        return out
    out, x, nu, f = command_line(ctx, gp.cs, gp.k, columns(gp), len(gp.varidxs), solve, "file")
    ctx.check(len(out["primal"]) == len(x) and len(out["nu"]) == len(nu), "file: all values are read")
    for got, want in zip(out["primal"], x):
        ctx.eq(got, want, "file: variables' values")
    for got, want in zip(out["nu"], nu):
        ctx.eq(got, want, "file: monomials' dual values")
    ctx.eq(out["objective"], f, "file: objective")
    ctx.check(out["status"] == "OPTIMAL", "file: status")


def h_file_result(ctx):
    "the command line interface's answers in the result"
    x, y = X("x"), X("y")
    c = [ctx.pos("c%d" % i) for i in range(4)]
    cons = [c[0]/x + c[1]/y <= 1, c[2]*x <= y]
    if ctx.boolean("order"):
        cons = cons[::-1]
    gp = Model(x*y, cons).gp(checkbounds=False)
    solve = lambda path: gp.solve("mosek_cli", verbosity=0, gen_result=False)
    out, xs, nu, f = command_line(ctx, gp.cs, gp.k, columns(gp), 2, solve, "result")
    gp.check_solution = lambda *a, **k: None
    res = gp.result
    for vk, j in gp.varidxs.items():
        ctx.eq(res["variables"][vk], ctx.exp(xs[j]), "result's variables")
    ctx.eq(res["cost"], f, "result's cost")
    at = 1
    for con, n in zip(cons, gp.k[1:]):
        ctx.eq(res["sensitivities"]["constraints"][con], abs(sum(nu[at:at+n])), "result's constraints")
        at += n


def h_file_matrix(ctx):
    "arbitrary exponents, entries in any order"
    c = [ctx.pos("c%d" % i) for i in range(5)]
    want, trip = entries_(ctx, ctx.choice("order", 3))
    k = [[2, 2, 1], [2, 1, 1, 1], [1, 2, 2], [5]][ctx.choice("k", 4)]
    if ctx.boolean("zeros"):
        trip.append((0, 0, 0))
    A = CootMatrix([t[0] for t in trip], [t[1] for t in trip], [t[2] for t in trip])
    p = np.array([i for i, n in enumerate(k) for _ in range(n)], "int32")
    solve = lambda path: cli.optimize_generator(path)(c=c, A=A, p_idxs=p, k=k)
    command_line(ctx, c, k, want, 2, solve, "matrix")


def h_file_failure(ctx):
    "statuses, return codes and unreadable answers of the command line interface"
    x, y = X("x"), X("y")
    gp = Model(x*y, [ctx.pos("c0")/x + ctx.pos("c1")/y <= 1]).gp(checkbounds=False)
    how = ctx.choice("how", 12)
    status = ["PRIMAL_FEASIBLE", "DUAL_FEASIBLE", "UNKNOWN", "ILL_POSED", "PRIMAL_AND_DUAL_INFEASIBLE",
              "NEAR_PRIMAL_AND_DUAL_FEASIBLE", "PRIMAL_INFEASIBLE_OR_UNBOUNDED",
              "PRIMAL_AND_DUAL_FEASIBLE?", "", "NOT PRIMAL_AND_DUAL_FEASIBLE"][ctx.choice("status", 10) if how == 3 else 0]
    whole = solution_text(Tokens(ctx), status, "OPTIMAL", 1.0, [0.0, 0.0], [1.0, 0.5, 0.5])
    texts = ["PROBLEM STATUS      : PRIMAL_INFEASIBLE\n", "PROBLEM STATUS      : DUAL_INFEASIBLE\n",
             "PROBLEM STATUS      : UNKNOWN\n", whole, "", "garbage\n",
             "PROBLEM STATUS      : PRIMAL_AND_DUAL_FEASIBLE\nSOLUTION STATUS     : OPTIMAL\n"
             "OBJECTIVE           : 1.0\n\nPRIMAL VARIABLES\nINDEX   VALUE\n1  0.0\n"]
    want = [PrimalInfeasible, DualInfeasible] + [UnknownInfeasible]*5 + [InvalidLicense]*2 \
        + [UnknownInfeasible]*3
    codes = [233, 240, 1, 234]

    def reply(sol):
        if how < len(texts):
            with open(sol, "w") as fl:
                fl.write(texts[how])
            return b"log"
        if how == 11:
            raise FileNotFoundError("mskexpopt")
        raise cli.CalledProcessError(codes[how-len(texts)], "mskexpopt")
    err = []

    def solve(path):
        try:
            gp.solve("mosek_cli", verbosity=0, gen_result=False)
        except Exception as e:  # pylint: disable=broad-except
            err.append(e)
    command_line(ctx, gp.cs, gp.k, columns(gp), 2, solve, "failure", reply)
    ctx.check(len(err) == 1, "a failure is not a solution")
    ctx.check(type(err[0]) is want[how], "the matching error")


HARNESSES = [
    Harness("conic", h_conic, "4 sets of constraints in 4 orders, 3 costs, a fixed variable", max_paths=8000),
    Harness("conic_result", h_conic_result, "2 constraints"),
    Harness("conic_matrix", h_conic_matrix, "5 terms in 5 arrangements, arbitrary exponents, 3 orders of entries", max_paths=20000),
    Harness("conic_failure", h_conic_failure, "5 statuses, 6 exceptions"),
    Harness("file", h_file, "4 sets of constraints in 4 orders, 3 costs, a fixed variable", rtol=1e-12),
    Harness("file_result", h_file_result, "2 constraints", rtol=1e-12),
    Harness("file_matrix", h_file_matrix, "5 terms in 4 arrangements, arbitrary exponents, 3 orders of entries", max_paths=20000, rtol=1e-12),
    Harness("file_failure", h_file_failure, "7 answers, 5 exceptions"),
]
