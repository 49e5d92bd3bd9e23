"The built-in solver interface translates faithfully both ways"
import gpkit
import gpkit.solvers.cvxopt as face
from .gplib import *
from gpkit import Model
from gpkit.small_classes import CootMatrix
from gpkit.constraints.gp import MonoEqualityIndexes
from gpkit.exceptions import UnknownInfeasible, DualInfeasible, PrimalInfeasible, Infeasible

REAL = {n: getattr(face, n) for n in ("gp", "spmatrix", "matrix")}


class Sparse:
    "cvxopt's sparse matrices: duplicates sum, the size is that of the entries"
    def __init__(self, V, I, J, size=None, tc=None):
        assert len(V) == len(I) == len(J)
        self.e = {}
        for v, i, j in zip(V, I, J):
            self.e[int(i), int(j)] = self.e.get((int(i), int(j)), 0) + v
        self.size = size or (max(i for i, _ in self.e)+1, max(j for _, j in self.e)+1)


def entries(M):
    if isinstance(M, Sparse):
        return M.e, M.size
    if M is None:
        return {}, (0, 0)
    out = {}
    for v, i, j in zip(M.V, M.I, M.J):
        out[i, j] = out.get((i, j), 0) + v
    return out, M.size


class Recorder:
    def __init__(self, ctx, reply):
        self.ctx, self.reply, self.calls = ctx, reply, []

    def __enter__(self):
        face.gp = self
        if not self.ctx.concrete:
            face.spmatrix = Sparse
            face.matrix = lambda x, *a, **k: list(x)
        return self

    def __exit__(self, *a):
        for n, v in REAL.items():
            setattr(face, n, v)

    def __call__(self, K, F, g, G=None, h=None, A=None, b=None, **kwargs):
        ctx = self.ctx
        (Fe, Fs), (Ge, Gs), (Ae, As) = entries(F), entries(G), entries(A)
        g, h, b = list(g), list(h if h is not None else []), list(b if b is not None else [])
        ctx.check(sum(K) == Fs[0] == len(g), "as many rows as constants: F")
        ctx.check(Gs[0] == len(h), "as many rows as constants: G")
        ctx.check(As[0] == len(b), "as many rows as constants: A")
        n = Fs[1]
        ctx.check(Gs[1] in (0, n) and As[1] in (0, n), "all matrices have every column")
        row = lambda E, i: {j: v for (i_, j), v in E.items() if i_ == i}
        blocks, at = [], 0
        for size in K:
            blocks.append([(row(Fe, i), g[i]) for i in range(at, at+size)])
            at += size
        self.problem = dict(blocks=blocks, lin=[(row(Ge, i), -h[i]) for i in range(len(h))],
                            eq=[(row(Ae, i), -b[i]) for i in range(len(b))], n=n, kwargs=kwargs)
        self.calls.append(self.problem)
        return self.reply(self.problem)


def kstr(v):
    return v.key() if hasattr(v, "key") and callable(v.key) else round(float(v), 12)


def sig(rows):
    "what a block of rows looks like, by its exponents"
    return tuple(tuple(sorted((j, kstr(v)) for j, v in r.items() if v != 0)) for r in rows)


def values(ctx, name, n, f):
    return [f("%s%d" % (name, i)) for i in range(n)]


def col(ctx, vals):
    "a column as cvxopt returns it"
    if ctx.concrete:
        return REAL["matrix"]([float(v) for v in vals], (len(vals), 1), "d") if vals \
            else REAL["matrix"](0.0, (0, 1))
    return arr(ctx, vals)


def translate(ctx, c, A, k, meq_idxs, exps, ncols, tag, use_leqs=True, call=None, dx="",
              record=None):
    """call(): runs the interface; c, exps: {column: exponent} of each monomial.
    returns (out, x)"""
    x = values(ctx, dx+"x", ncols, ctx.real)
    f = ctx.real(dx+"f")
    duals = {}

    def reply(prob):
        for kind, src in (("znl", prob["blocks"][1:]), ("zl", prob["lin"]), ("y", prob["eq"])):
            duals[kind] = values(ctx, dx+kind, len(src), ctx.real if kind == "y" else ctx.pos)
        return {"status": "optimal", "x": col(ctx, x), "primal objective": f,
                "znl": col(ctx, duals["znl"]), "zl": col(ctx, duals["zl"]),
                "y": col(ctx, duals["y"])}
    with Recorder(ctx, reply) as rec:
        out = call()
    ctx.check(len(rec.calls) == 1, tag+": solved once")
    prob = rec.problem
    if record is not None:
        record.append(prob)
    ctx.check(prob["n"] == ncols, tag+": one column per variable")
    # what must be there
    starts = [sum(k[:i]) for i in range(len(k))]
    rows = [[(exps[i], c[i]) for i in range(s, s+n)] for s, n in zip(starts, k)]
    la = list(out["la"])
    ctx.check(len(la) == len(k), tag+": one dual value per constraint")
    pool = [("znl", i, b) for i, b in enumerate(prob["blocks"][1:])] \
        + [("zl", i, [r]) for i, r in enumerate(prob["lin"])] \
        + [("y", i, [r]) for i, r in enumerate(prob["eq"])]

    def same(block, want, label):
        ctx.check(sig([r for r, _ in block]) == sig([r for r, _ in want]), label)
        for (_, g), (_, ci) in zip(block, want):
            ctx.eq(g, ctx.log(ci), label)
    ctx.check(len(prob["blocks"]) > 0, tag+": the cost")
    same(prob["blocks"][0], rows[0], tag+": the cost")
    ctx.eq(la[0], 1, tag+": the cost's dual value")
    p = 1
    while p < len(k):
        meq = use_leqs and starts[p] in meq_idxs.all
        halves = [p, p+1] if meq else [p]
        found = None
        for cand in pool:
            kind, i, block = cand
            if (kind == "y") != meq or len(block) != len(rows[p]):
                continue
            for half in halves:
                if sig([r for r, _ in block]) == sig([r for r, _ in rows[half]]):
                    found = cand, half
                    break
            if found:
                break
        ctx.check(bool(found), tag+": constraint reaches the solver")
        if not found:
            return out, x
        (kind, i, block), half = found
        pool.remove(found[0])
        same(block, rows[half], tag+": constraint as compiled")
        dual = duals[kind][i]
        if meq:
            other = p+1 if half == p else p
            ctx.eq(la[half] - la[other], dual, tag+": equality's dual value")
            ctx.check(la[half] >= 0 and la[other] >= 0, tag+": dual values are not negative")
            ctx.eq(la[half]*la[other], 0, tag+": one half is active")
        else:
            ctx.eq(la[p], dual, tag+": constraint's dual value")
        p += len(halves)
    ctx.check(not pool, tag+": nothing else reaches the solver")
    ctx.check(len(out["primal"]) == ncols, tag+": one value per variable")
    for j in range(ncols):
        ctx.eq(out["primal"][j], x[j], tag+": variables' values")
    ctx.eq(out["objective"], ctx.exp(f), tag+": objective")
    ctx.check(out["status"] == "optimal", tag+": status")
    ctx.check(record is not None or prob["kwargs"].get("kktsolver") == "ldl", tag+": options reach the solver")
    return out, x


def columns(gp):
    cols = gp.varidxs
    return [{cols[vk]: e for vk, e in exp.items()} for exp in gp.exps]


def program(ctx, m, tag, **kwargs):
    "solve m's program through the real path with a recorded solver"
    gp = m.gp(checkbounds=False)
    call = lambda: gp.solve("cvxopt", verbosity=0, gen_result=False, **kwargs)
    return gp, translate(ctx, gp.cs, gp.A, gp.k, gp.meq_idxs, columns(gp), len(gp.varidxs), tag,
                         use_leqs=kwargs.get("use_leqs", True), call=call)


def returned(ctx, gp, out, x, byname, tag):
    "variables, cost and constraints of the result"
    gp.check_solution = lambda *a, **k: None     # decided under G06
    res = gp.result
    for vk, j in gp.varidxs.items():
        ctx.eq(res["variables"][vk], ctx.exp(x[j]), tag+": result's variables")
    ctx.eq(res["cost"], out["objective"], tag+": result's cost")
    sens = res["sensitivities"]["constraints"]
    for con, want in byname:
        ctx.check(con in sens, tag+": constraint is reported")
        ctx.eq(sens[con], want, tag+": constraint's sensitivity")


ORDERS = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]]


def h_mix(ctx):
    "posynomial and monomial inequalities and equalities, in any order"
    x, y, z = X("x"), X("y"), X("z")
    c = [ctx.pos("c%d" % i) for i in range(8)]
    cons = [c[0]*x + c[1]*y <= z, x*y >= c[2], c[3]*x*z == y, c[4]*y**2 + c[5]/x + 1 <= 3*y*z]
    cons = [cons[i] for i in ORDERS[ctx.choice("order", 4)]]
    cost = [c[6]*x*z, c[6]*x + c[7]*y/z, c[6]*y + 2][ctx.choice("cost", 3)]
    leqs = ctx.boolean("leqs")
    gp, (out, xs) = program(ctx, Model(cost, cons), "mix", **({} if leqs else {"use_leqs": False}))
    la = list(out["la"])
    want, p = [], 1
    for con in cons:
        if con.oper == "=":
            want.append((con, abs(la[p]-la[p+1])))
            p += 2
        else:
            want.append((con, la[p]))
            p += 1
    returned(ctx, gp, out, xs, want, "mix")


def h_kinds(ctx):
    "programs without some kind of constraint; several equalities"
    x, y, z = X("x"), X("y"), X("z")
    c = [ctx.pos("c%d" % i) for i in range(6)]
    cons = []
    for i, con in enumerate([c[0]*x + c[1]/y <= z, c[1]*x*y >= z, c[2]*x*y == z,
                             c[3]*x**2 == y, c[4] <= z, c[5]*z == x**3]):
        if ctx.boolean("has%d" % i):
            cons.append(con)
    gp, (out, xs) = program(ctx, Model(x*y/z + z, cons), "kinds")


def h_exps(ctx):
    "arbitrary real exponents"
    x, y = X("x"), X("y")
    c = [ctx.pos("c%d" % i) for i in range(5)]
    e = [ctx.nonzero("e%d" % i) for i in range(6)]
    ctx.assume(e[0] != e[1])
    ctx.assume(e[3] + 1 != 0)
    ctx.assume(e[4]*2 != 1)
    cons = [c[0]*x**e[0] + c[1]*x**e[1] <= y, c[2]*x**e[2]*y**e[3] >= 1/y,
            c[3]*x*y**e[4] == y**0.5*x**e[5]]
    ctx.assume(e[5] != 1)
    ctx.assume(e[4] != 0.5)
    k = ctx.choice("order", 3)
    cons = cons[k:] + cons[:k]
    program(ctx, Model(c[4]*x**e[5]*y, cons), "exponents")


def h_subs(ctx):
    "fixed variables, vanished constraints, satisfied equalities"
    x, y, a, b = X("x"), X("y"), X("a"), X("b")
    c = [ctx.pos("c%d" % i) for i in range(5)]
    va, vb = ctx.pos("va"), ctx.pos("vb")
    ctx.assume(va*c[0] < 1)
    cons = [c[0]*a + c[1]*x*y <= 1, c[2]*x*a == y*b,
            c[3]*a*x + c[4]*b*x <= y, a*x >= b*y]
    k = ctx.choice("order", 4)
    cons = cons[k:] + cons[:k]
    subs = [{}, {a: va}, {a: va, b: vb}][ctx.choice("fixed", 3)]
    gp, (out, xs) = program(ctx, Model(x/y + a/x + y/b, cons, subs), "fixed")


def h_again(ctx):
    "solving one program twice gives each time that time's answer"
    x, y = X("x"), X("y")
    c = [ctx.pos("c%d" % i) for i in range(4)]
    m = Model(x*y, [c[0]/x + c[1]/y <= 1, c[2]*x == y, x*y >= c[3]])
    gp = m.gp(checkbounds=False)
    first = [{}, {"kktsolver": "chol"}, {"use_leqs": False, "options": {"maxiters": 7}},
             {"kktsolver": "qr"}][ctx.choice("options", 4)]
    given = []
    for t in ("first", "second"):
        opts = dict(first) if t == "first" else {}

        def call(opts=opts):
            out = gp.solve("cvxopt", verbosity=0, gen_result=False, **opts)
            ctx.check(opts == (first if t == "first" else {}), t+": the caller's options are its own")
            return out
        out, xs = translate(ctx, gp.cs, gp.A, gp.k, gp.meq_idxs, columns(gp), 2, t, call=call, dx=t,
                            use_leqs=opts.get("use_leqs", True), record=given)
        want = opts.get("kktsolver", "ldl"), opts.get("options")
        got = given[-1]["kwargs"]
        ctx.check((got.get("kktsolver"), got.get("options")) == want, t+": the solver gets this call's options alone")
        gp._result = None
        returned(ctx, gp, out, xs, [], t)


def h_matrix(ctx):
    "matrices whose entries are unordered, repeated or zeroed out in place"
    c = [ctx.pos("c%d" % i) for i in range(6)]
    e = [ctx.nonzero("e%d" % i) for i in range(7)]
    k = [2, 1, 1, 1, 1]
    want = [{0: e[0]}, {1: e[1], 0: e[2]}, {0: 1, 1: e[3]}, {0: -1, 1: -e[3]}, {1: e[4]}, {0: e[5], 1: e[6]}]
    trip = [(i, j, v) for i, r in enumerate(want) for j, v in r.items()]
    k2 = ctx.choice("order", 3)
    trip = [trip, trip[::-1], trip[3:]+trip[:3]][k2]
    trip[2:2] = [(0, 0, 0)]
    trip.append((0, 0, 0))
    trip.append((1, 1, 0))
    A = CootMatrix([t[0] for t in trip], [t[1] for t in trip], [t[2] for t in trip])
    meq = MonoEqualityIndexes()
    meq.all, meq.first_half = {2, 3}, {2}
    call = lambda: face.optimize(c=c, A=A, k=k, meq_idxs=meq, p_idxs=None, kktsolver="ldl")
    translate(ctx, c, A, k, meq, want, 2, "matrix", call=call)


def h_failure(ctx):
    "anything but an optimal answer is an error"
    x, y = X("x"), X("y")
    m = Model(x*y, [ctx.pos("c0")/x + ctx.pos("c1")/y <= 1])
    gp = m.gp(checkbounds=False)
    how = ctx.choice("how", 9)
    raised = {4: ValueError("Rank(A) < p"), 5: ArithmeticError("singular"), 6: TypeError("x"),
              7: ZeroDivisionError("y"), 8: KeyError("z")}.get(how)

    def reply(prob):
        if raised:
            raise raised
        return {"status": ["unknown", "primal infeasible", "Optimal", None][how],
                "x": col(ctx, [ctx.real("x0"), ctx.real("x1")]), "primal objective": ctx.real("f"),
                "znl": col(ctx, [ctx.pos("z")]), "zl": col(ctx, []), "y": col(ctx, [])}
    with Recorder(ctx, reply):
        try:
            gp.solve("cvxopt", verbosity=0, gen_result=ctx.boolean("gen"))
            ctx.check(False, "a failure is not a solution")
        except DualInfeasible:
            ctx.check(how == 4, "dual infeasibility is what a rank error means")
        except UnknownInfeasible:
            ctx.check(how != 4, "a rank error is a dual infeasibility")


HARNESSES = [
    Harness("mix", h_mix, "4 constraints in 4 orders, 3 costs, with and without equality constraints"),
    Harness("kinds", h_kinds, "all subsets of 6 constraints (3 of them equalities)"),
    Harness("exps", h_exps, "3 constraints with arbitrary real exponents, 3 orders"),
    Harness("subs", h_subs, "3 sets of fixed variables, 4 orders"),
    Harness("again", h_again, "a program solved twice, the first time with one of 4 sets of options"),
    Harness("matrix", h_matrix, "3 orders of entries, repeated and zero entries; arbitrary exponents"),
    Harness("failure", h_failure, "4 non-optimal statuses, 5 exceptions"),
]
