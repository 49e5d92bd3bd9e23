"Each sequential step solves the approximation at the previous solution"
import gpkit
from .gplib import *
from gpkit import Model, VectorVariable, units
from gpkit.constraints.sigeq import SignomialEquality
from gpkit.constraints.sgp import SequentialGeometricProgram as SGP
from gpkit.exceptions import PrimalInfeasible

NOTE = ("Answers to each geometric program are arbitrary symbolic points; each problem handed to the "
        "solver is matched, group by group, to the tangent of the signomial constraints at the point before.")


class Sig:
    "posy <= negy (or ==), as terms over names"
    def __init__(self, posy, negy, eq=False):
        self.posy, self.negy, self.eq = posy, negy, eq

    def build(self, xs):
        p, n = Terms(self.posy).nomial(xs), Terms(self.negy).nomial(xs)
        with SignomialsEnabled():
            return SignomialEquality(p, n) if self.eq else (p <= n)


class Gp:
    "posy <= mono"
    def __init__(self, posy, mono, eq=False):
        self.posy, self.mono, self.eq = posy, mono, eq

    def build(self, xs):
        p, n = Terms(self.posy).nomial(xs), Terms([self.mono]).nomial(xs)
        return (p == n) if self.eq else (p <= n)


def spec(ctx, which):
    "(cost terms, constraints, fixed names)"
    c = [ctx.pos("c%d" % i) for i in range(4)]
    if which == 0:
        return [(1, {"x": 1})], [Gp([(1, {"y": 1})], (c[0], {})),
                                 Sig([(c[1], {})], [(1, {"x": 1}), (c[2], {"y": 1})])], []
    if which == 1:      # a fixed variable merges two terms of the smaller side
        return [(1, {"x": 1}), (1, {"z": 1})], [
            Sig([(1, {"z": 1}), (c[0], {"k": 1, "z": 1})], [(c[1], {"x": 1, "k": 1}), (c[2], {"y": 2})]),
            Gp([(1, {"y": 1})], (c[3], {"z": 1}))], ["k"]
    if which == 2:      # GP-compatible once k is fixed, next to one that is not
        return [(1, {"x": 1})], [
            Sig([(1, {"z": 1})], [(c[0], {"x": 1, "k": 1}), (c[1], {"x": 1})]),
            Sig([(1, {"y": 1})], [(1, {"x": 1}), (c[2], {"z": 1})]),
            Gp([(c[3], {"k": 1})], (1, {"y": 1}))], ["k"]
    if which == 3:      # approximations that are constants at some points
        return [(1, {"x": 1})], [
            Sig([(c[0], {"x": 0.5, "y": 0.5})], [(1, {"x": 1}), (1, {"y": 1})]),
            Sig([(c[1], {"z": 1})], [(1, {"x": 1}), (c[2], {"y": 1})]),
            Gp([(c[3], {})], (1, {"z": 1}))], []
    if which == 4:
        return [(1, {"x": 1})], [
            Sig([(1, {"x": 1}), (c[0], {"y": 1})], [(c[1], {"z": 1}), (1, {"y": 2})], eq=True),
            Gp([(1, {"y": 1})], (1, {"z": 1}), eq=True)], []
    # exponents that vanish at some points
    return [(1, {"y": -1})], [
        Sig([(c[0], {"y": 1})], [(1, {"x": 1}), (1, {"x": -1})]),
        Gp([(1, {"x": 1})], (c[1], {}))], []


def merged(ctx, terms, fixed):
    "[[(value-free exponents), [terms...]]] after substitution"
    out = []
    for c, exp in terms:
        free = {n: e for n, e in exp.items() if n not in fixed}
        for o in out:
            if o[0] == free:
                o[1].append((c, exp))
                break
        else:
            out.append((free, [(c, exp)]))
    return out


def tval(terms, point):
    return sum(Terms(terms).values(point))


def vanished(v):
    "whether a number is zero but for rounding"
    return type(v) in (float, np.float64) and abs(v) < 1e-14


class Step:
    "one problem given to the solver"
    def __init__(self, gp, c, A, k, p_idxs, meq_idxs):
        self.names = [vk for vk in gp.varlocs]
        self.c = list(c)
        rows = [{} for _ in c]
        for r, j, v in zip(A.row, A.col, A.data):
            if j < len(self.names):
                if vanished(v):
                    continue    # an exponent that vanished, but for rounding
                rows[r][self.names[j]] = rows[r].get(self.names[j], 0) + v
        self.rows = rows
        self.groups, at = [], 0
        for size in k:
            self.groups.append(list(range(at, at+size)))
            at += size
        self.k, self.p_idxs = list(k), [int(p) for p in p_idxs]
        self.meq = set(meq_idxs.all)
        self.n = len(gp.varlocs)


def check_step(ctx, step, cost, cons, fixed, point, slackkey, penalty, tag):
    """point: where signomials were approximated (by name, including fixed)"""
    ctx.check(sum(step.k) == len(step.c) and
              step.p_idxs == [p for p, g in enumerate(step.groups) for _ in g], tag+": groups agree")
    name = {vk: ("slack" if slackkey is not None and vk == slackkey else vk.name) for vk in step.names}
    groups = [[(step.c[i], {name[vk]: v for vk, v in step.rows[i].items()}) for i in g] for g in step.groups]
    want = []       # (kind, data)
    slack = slackkey is not None
    for con in cons:
        if isinstance(con, Sig) and not compatible(ctx, con, fixed):
            for flip in ((0, 1) if con.eq else (0,)):
                want.append(("tangent", con, flip))
    if slack:
        want.append(("slack",))
    for con in cons:
        if isinstance(con, Gp):
            for flip in ((0, 1) if con.eq else (0,)):
                want.append(("gp", con, flip))
        elif compatible(ctx, con, fixed):
            want.append(("exact", con))
    # cost
    ctx.check(len(groups[0]) == len(cost), tag+": cost terms")
    same_terms(ctx, groups[0], [(c, dict(e, **({"slack": penalty} if slack else {}))) for c, e in cost],
               fixed, point, tag+": cost")
    at = 1
    for w in want:
        if w[0] == "tangent":
            at += tangent(ctx, groups[at:at+1], w[1], w[2], fixed, point, slack, tag)
            continue
        if at >= len(groups):
            ctx.check(False, tag+": every constraint is there")
            return
        g = groups[at]
        is_meq = set(step.groups[at]) & step.meq
        ctx.check(bool(is_meq) == (w[0] == "gp" and w[1].eq), tag+": only equalities are marked as such")
        at += 1
        if w[0] == "slack":
            same_terms(ctx, g, [(1, {"slack": -1})], fixed, point, tag+": slack")
        elif w[0] == "gp":
            t = Terms(w[1].posy).scaled(Terms([w[1].mono])).terms
            if w[2]:
                t = Terms([w[1].mono]).scaled(Terms(w[1].posy)).terms
            same_terms(ctx, g, t, fixed, point, tag+": constraint")
        else:
            # posy/(sum of greater terms), which differ only in fixed variables
            (free, negs), = merged(ctx, w[1].negy, fixed)
            N = tval([(c, {n: e for n, e in exp.items() if n in fixed}) for c, exp in negs], point)
            t = [(c/N, {n: e - (free.get(n, 0) if n not in fixed else 0) for n, e in
                        dict({n: 0 for n in free}, **exp).items()}) for c, exp in w[1].posy]
            same_terms(ctx, g, t, fixed, point, tag+": compatible constraint")
    ctx.check(at == len(groups), tag+": nothing else")


def compatible(ctx, con, fixed):
    return not con.eq and len(merged(ctx, con.negy, fixed)) == 1


def same_terms(ctx, got, terms, fixed, point, tag):
    "numeric exponents"
    want = merged(ctx, [(c, {n: e for n, e in exp.items() if e != 0}) for c, exp in terms], fixed)
    ctx.check(len(got) == len(want), tag+": as many terms")
    for free, ts in want:
        hit = [c for c, e in got if set(n for n, v in e.items() if v != 0) == set(free)
               and all(e[n] == free[n] for n in free)]
        ctx.check(len(hit) == 1, tag+": has the term")
        if hit:
            c = tval([(c, {n: e for n, e in exp.items() if n in fixed}) for c, exp in ts], point)
            ctx.eq(hit[0], c, tag+": coefficient")


def grad(terms, point, n):
    return sum(v*e.get(n, 0) for v, (_, e) in zip(Terms(terms).values(point), terms))


def tangent(ctx, groups, con, flip, fixed, point, slack, tag):
    "returns how many groups it took"
    tag = tag + (": equality" if con.eq else ": inequality")
    posy, negy = (con.negy, con.posy) if flip else (con.posy, con.negy)
    P, N = tval(posy, point), tval(negy, point)
    if con.eq:      # both sides become monomials: one term
        lhs = [({}, posy)]
    else:
        lhs = merged(ctx, posy, fixed)
    free = sorted(set(n for _, e in con.posy + con.negy for n in e) - set(fixed))
    # the gradient (times P*N) of each term of the left side over the right
    def slope(ts, n):
        if con.eq:
            return (grad(posy, point, n)*N - grad(negy, point, n)*P)/(P*N)
        return ts[0][1].get(n, 0) - grad(negy, point, n)/N
    if con.eq and any(type(point[n]) is not int for n in free):
        # points at which an equality's exponents vanish: only the default one
        for n in free:
            ctx.assume(slope(posy, n) != 0)
    if len(lhs) == 1 and all(ctx.holds(slope(lhs[0][1], n) == 0) for n in free):
        # a constant: it may be left out if it's true
        const = groups and all(ctx.holds(v == 0) for n, v in groups[0][0][1].items() if n != "slack")
        if not (const and len(groups[0]) == 1):
            ctx.le(P, N*1.0011, tag+": a vanished approximation is always true")
            return 0
    if not groups:
        ctx.check(False, tag+": every approximation is there")
        return 0
    g, = groups
    ctx.check(len(g) == len(lhs), tag+": as many terms")
    if len(g) != len(lhs):
        return 1
    for (c, e), (_, ts) in zip(ordered(ctx, g, lhs, free, slope), lhs):
        v = c
        for n, x in e.items():
            v = v*(1 if n == "slack" else point[n])**x
        ctx.eq(v*N, tval(ts, point), tag+": value at the point")
        for n in free:
            ctx.eq(e.get(n, 0), slope(ts, n), tag+": gradient at the point")
        ctx.eq(e.get("slack", 0), -1 if slack else 0, tag+": slack")
        ctx.check(set(e) <= set(free) | {"slack"}, tag+": no other variables")
    return 1


def ordered(ctx, g, lhs, free, slope):
    "the terms of g in the order of lhs"
    if len(g) == 1:
        return g
    rest, out = list(g), []
    for _, ts in lhs:
        for t in rest:
            if ctx.holds(ctx_and([t[1].get(n, 0) - slope(ts, n) for n in free], ctx)):
                rest.remove(t)
                out.append(t)
                break
    return out if len(out) == len(g) else g


def ctx_and(diffs, ctx):
    if ctx.concrete:
        return all(abs(d) < 1e-7 for d in diffs)
    cond = None
    for d in diffs:
        c = d == 0
        cond = c if cond is None else (cond & c if not isinstance(cond, bool) and not isinstance(c, bool)
                                       else (c if cond is True else cond if c is True else False))
    return True if cond is None else cond


def setup_model(ctx, which):
    cost, cons, fixed = spec(ctx, which)
    names = sorted(set(n for c in cons for _, e in (c.posy + (c.negy if isinstance(c, Sig) else [c.mono]))
                       for n in e))
    xs = {n: X(n) for n in names}
    kval = ctx.pos("kval")
    m = Model(Terms(cost).nomial(xs), [c.build(xs) for c in cons], {xs[n]: kval for n in fixed})
    return m, xs, cost, cons, fixed, kval


def run(ctx, which, pccp, start, nsteps, tag, again=False):
    m, xs, cost, cons, fixed, kval = setup_model(ctx, which)
    penalty = [200, 3, 0.25][ctx.choice("penalty", 3)] if pccp else None
    kw = dict(use_pccp=bool(pccp), checkbounds=False)
    if pccp and penalty != 200:
        kw["pccp_penalty"] = penalty
    slackkey = SGP.slack.key if pccp else None
    steps, given = [], []
    point = {n: kval if n in fixed else 1 for n in xs}
    try:
        sp = m.sp(**kw)
    except PrimalInfeasible:
        # constant approximations without slack
        ctx.check(not pccp, tag+": only without slack can the first approximation be infeasible")
        return
    x0 = {}
    if start:
        form = start - 1
        for n in xs:
            if n in "xk" or form == 3:
                v = ctx.pos("s"+n)
                key = [n, xs[n], xs[n].key, n][form]
                x0[key] = v
                if n not in fixed:
                    point[n] = v
    if start == 5:
        x0 = {}
    expected = [dict(point)]
    for t in range(nsteps):
        p = dict(point)
        for n in xs:
            if n not in fixed:
                p[n] = ctx.pos("v%s%d" % (n, t))
        expected.append(p)

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        gp = sp._gp
        t = len(steps)
        steps.append(Step(gp, c, A, k, p_idxs, meq_idxs))
        given.append(gp)
        out = [None if vk == slackkey else expected[t+1][vk.name] for vk in gp.varlocs]
        costval = 1.0 if t >= nsteps-2 else float(nsteps-t)
        return dict(objective=costval, primal=arr(ctx, [0.0 if v is None else ctx.log(v)
                                                        for v in out]), nu=arr(ctx, [1.]*len(c)))
    import gpkit.constraints.gp as gpmod
    real = gpmod.GeometricProgram.generate_result
    class Done(Exception):
        pass
    def stop(self, *a, **k):
        raise Done()
    gpmod.GeometricProgram.generate_result = stop
    try:
        try:
            sp.localsolve(solver, verbosity=-1, x0=x0 or None)
            ctx.check(False, "a result is generated")
        except PrimalInfeasible:
            ctx.check(not pccp, tag+": only without slack can an approximation be infeasible")
        except Done:
            ctx.check(len(steps) == nsteps, tag+": number of steps")
        if again and len(steps) == nsteps:
            # without a starting point it goes on from where it was
            first = list(steps)
            del steps[:]
            try:
                sp.localsolve(solver, verbosity=-1)
            except (Done, PrimalInfeasible):
                pass
            check_step(ctx, steps[0], cost, cons, fixed, expected[nsteps-1], slackkey, penalty, tag+" again")
            steps[:] = first
    finally:
        gpmod.GeometricProgram.generate_result = real
    for t, step in enumerate(steps):
        check_step(ctx, step, cost, cons, fixed, expected[t], slackkey, penalty, tag+" step %d" % (t+1))
        # programs of earlier steps are kept as they were
        gp = given[t]
        ctx.check(len(gp.cs) == len(step.c) and all(a is b or a == b for a, b in zip(gp.cs, step.c)),
                  tag+": earlier programs are kept")
        for exp, row in zip(gp.exps, step.rows):
            exp = {n: v for n, v in exp.items() if not vanished(v)}
            ctx.check(set(exp) == set(n for n, v in row.items() if v != 0) and
                      all(exp[n] is row[n] or exp[n] == row[n] for n in exp), tag+": earlier programs are kept")


def h_default(ctx):
    "from the default starting point"
    run(ctx, ctx.choice("which", 6), 1, 0, 2, "default")


def h_hard(ctx):
    "without slack"
    run(ctx, ctx.choice("which", 6), 0, 0, 2, "hard")


def h_start(ctx):
    "from given starting points, keyed in any way"
    run(ctx, ctx.choice("which", 3), ctx.choice("pccp", 2), 1+ctx.choice("start", 4), 2, "start")


def h_three(ctx):
    "three steps, and going on afterwards"
    run(ctx, [0, 3, 5][ctx.choice("which", 3)], 1, 0, 3, "three", again=True)


class External:
    "a constraint known only by its approximations"
    def __init__(self, ctx, x, y):
        self.x, self.y, self.seen, self.ctx = x, y, [], ctx
        self.a = [ctx.pos("a%d" % i) for i in range(8)]

    def as_gpconstr(self, x0):
        at = x0[self.x] if self.x in x0 else None
        self.seen.append((at, x0[self.y] if self.y in x0 else None))
        a = self.a[len(self.seen)-1]
        return [a*self.x <= self.y, a*self.y**-1 + self.x <= self.y][1 if at is not None else 0]


def h_external(ctx):
    "constraints that only know their approximations"
    x, y = X("x"), X("y")
    ext = External(ctx, x, y)
    b = ctx.pos("b")
    pccp = ctx.choice("pccp", 2)
    m = Model(y, [ext, b/x <= 1])
    sp = SGP(m.cost, m, m.substitutions, use_pccp=bool(pccp), checkbounds=False)
    ctx.check(ext.seen == [(None, None)], "external: first approximated knowing nothing")
    pts = [(ctx.pos("x%d" % i), ctx.pos("y%d" % i)) for i in range(3)]
    steps = []

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        gp = sp._gp
        t = len(steps)
        steps.append(Step(gp, c, A, k, p_idxs, meq_idxs))
        byname = {"x": pts[t][0], "y": pts[t][1], "C": None}
        return dict(objective=[2.0, 1.0, 1.0][t], nu=arr(ctx, [1.]*len(c)),
                    primal=arr(ctx, [0.0 if byname[vk.name] is None else ctx.log(byname[vk.name])
                                     for vk in gp.varlocs]))
    start = ctx.choice("start", 2)
    sx = ctx.pos("sx")
    sp.gps = []
    x0 = {x: sx} if start else None
    for t in range(3):
        gp = sp.gp(x0, cleanx0=bool(t))
        sp.gps.append(gp)
        gp.solve(solver, verbosity=0, gen_result=False)
        x0 = {vk: {"x": pts[t][0], "y": pts[t][1], "C": 1}[vk.name] for vk in gp.varlocs}
    want = ([(sx, None)] if start else []) + pts[:2]
    got = ext.seen[1:]
    ctx.check(len(got) == len(want), "external: approximated once a step")
    for (gx, gy), (wx, wy) in zip(got, want):
        ctx.check(gx is not None, "external: told the point")
        ctx.eq(gx, wx, "external: told the point")
        ctx.check((gy is None) == (wy is None), "external: told the point")
        if wy is not None:
            ctx.eq(gy, wy, "external: told the point")
    sl = ["slack"] if pccp else []
    for t, step in enumerate(steps):
        n = t if not start else t+1     # which approximation
        name = {vk: "slack" if vk.name == "C" else vk.name for vk in step.names}
        groups = [[(step.c[i], {name[vk]: v for vk, v in step.rows[i].items()}) for i in g]
                  for g in step.groups]
        a = ext.a[n]
        terms = [(a, {"x": 1, "y": -1})] if n == 0 else [(a, {"y": -2}), (1, {"x": 1, "y": -1})]
        terms = [(c, dict(e, **{z: -1 for z in sl})) for c, e in terms]
        ctx.check(len(groups) == 3+len(sl), "external: all constraints")
        if len(groups) == 3+len(sl):
            same_terms(ctx, groups[1], terms, [], {}, "external: its approximation")
            same_terms(ctx, groups[-1], [(b, {"x": -1})], [], {}, "external: the other constraint")


HARNESSES = [
    Harness("external", h_external, "a constraint of another class, with 1 or 2-term approximations, 3 steps"),
    Harness("default", h_default, "6 signomial models, 2 steps, any answers, 3 penalties"),
    Harness("hard", h_hard, "the same without slack variables"),
    Harness("start", h_start, "3 models, starting points by name, variable and key, partial and full"),
    Harness("three", h_three, "3 models, 3 steps and a repeated solve"),
]
