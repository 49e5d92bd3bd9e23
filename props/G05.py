"Reported sensitivities are the logarithmic derivatives of the optimal cost"
import gpkit
from .gplib import *
from gpkit import Model, VectorVariable
from gpkit.constraints.gp import GeometricProgram
from gpkit.nomials.math import MonomialEquality


def answer(ctx, gp, names, point, with_nu, la):
    "solver_out of a primal-dual consistent answer at the point"
    byvk = {vk: point[names[vk]] for vk in gp.varlocs}
    out = {"objective": ctx.pos("objective"), "soltime": 0.0, "solver": "fn",
           "primal": arr(ctx, [ctx.log(byvk[vk]) for vk in gp.varlocs])}
    if with_nu:
        nu = []
        for l, sh in zip(la, shares(gp, byvk, ctx)):
            nu.extend(l*s for s in sh)
        out["nu"] = arr(ctx, nu)
    else:
        out["la"] = arr(ctx, la if ctx.boolean("withcost") else la[1:])
    return out


def result_of(gp, out):
    gp.check_solution = lambda *a, **k: None     # decided under G06
    gp.solver_out = out
    return gp.result


def compare(ctx, res, xs, want, tag):
    got = res["sensitivities"]["variables"]
    for n, w in want.items():
        if n not in xs:
            continue
        vk = xs[n].key
        if vk in got:
            ctx.eq(got[vk], w, tag+": sensitivity")
        else:
            ctx.eq(w, 0, tag+": only zero sensitivities are left out")


def run(ctx, cost, ineqs, meqs, names, with_nu, subs=("a", "b"), fixed=None, tag=""):
    """cost Terms, ineqs [(Terms lhs, Terms rhs mono)], meqs [(mono, mono)]"""
    xs = {n: X(n) for n in names}
    point = {n: ctx.pos(n) for n in names}
    if fixed is None:
        fixed = [n for n in subs if ctx.boolean("fix"+n)]
    subsd = {xs[n].key: point[n] for n in fixed}
    cons, forms, kinds = [], [], []
    for l, r in ineqs:
        P = l.scaled(r)
        ctx.assume(const_part(P, point, fixed) < 1)
        cons.append(l.nomial(xs) <= r.nomial(xs))
        forms.append(P)
    for l, r in meqs:
        cons.append(l.nomial(xs) == r.nomial(xs))
    gp = GeometricProgram(cost.nomial(xs), gpkit.ConstraintSet(cons), dict(subsd),
                          checkbounds=False)
    la = [1]
    want = {n: dlog_sum(cost, point, n) for n in names}
    sens = []
    live = []
    for P, c in zip(forms, cons):
        ds = {n: dlog_leq1(P, point, n, fixed) for n in names}
        if ds[names[0]] is None:
            continue
        l = ctx.pos("la%d" % len(la))
        la.append(l)
        live.append((c, l))
        for n in names:
            want[n] = want[n] + l*ds[n]
    for (l, r), c in zip(meqs, cons[len(forms):]):
        P = l.scaled(r)
        if all(n in fixed for n in P.terms[0][1]):
            continue
        l0, l1 = ctx.pos("la%d" % len(la)), ctx.pos("la%dr" % len(la))
        la.extend([l0, l1])
        live.append((c, abs(l0-l1)))
        for n in names:
            want[n] = want[n] + (l0-l1)*dlog_sum(P, point, n)
    ctx.check(len(la) == len(gp.k), tag+": one dual value per compiled constraint")
    if len(la) != len(gp.k):
        return
    out = answer(ctx, gp, {xs[n].key: n for n in names}, point, with_nu, la)
    res = result_of(gp, out)
    compare(ctx, res, xs, want, tag)
    got = res["sensitivities"]["constraints"]
    ctx.check(len(got) == len(live), tag+": each constraint's sensitivity")
    for c, l in live:
        ctx.check(c in got, tag+": constraint is reported")
        if c in got:
            ctx.eq(got[c], l, tag+": constraint sensitivity")
    costs = res["sensitivities"]["cost"]
    for n in names:
        w = dlog_sum(cost, point, n)
        ctx.eq(costs.get(xs[n].key, 0), w, tag+": the cost's own sensitivity")
    ctx.eq(res["cost"], out["objective"], tag+": cost")
    for n in names:
        if xs[n].key in res["variables"]:
            ctx.eq(res["variables"][xs[n].key], point[n], tag+": values are the answer's")


EXPS = [{}, {"x": 1}, {"a": 1}, {"x": 1, "a": 1}, {"x": 1, "b": -1}, {"a": 2, "b": 1}]


def picks(ctx, tag, n, exps=EXPS, first=()):
    "n distinct terms, in increasing order of the list"
    out, at = [], 0
    for i in range(n):
        left = len(exps) - at - (n-1-i)
        j = at + ctx.choice("%s%d" % (tag, i), left)
        at = j+1
        out.append((ctx.pos("%sc%d" % (tag, i)), exps[j]))
    return Terms(list(first) + out)


def h_cost(ctx):
    "a cost whose terms merge, vanish or become constant"
    cost = picks(ctx, "t", 3)
    ineq = (Terms([(ctx.pos("c"), {"b": 1})]), Terms([(1, {"x": 1})]))
    run(ctx, cost, [ineq], [], "xab", ctx.boolean("nu"), tag="cost")


def h_ineq(ctx):
    "an inequality whose terms merge or move to the constant side"
    cost = Terms([(1, {"x": 1, "a": 2})])
    m = [{"x": 1}, {}, {"a": 1}, {"x": 1, "a": -1}][ctx.choice("m", 4)]
    ineq = (picks(ctx, "t", 3), Terms([(ctx.pos("mc"), m)]))
    run(ctx, cost, [ineq], [], "xab", ctx.boolean("nu"), tag="inequality")


def h_meq(ctx):
    "equalities and inequalities together"
    cost = Terms([(1, {"x": 1}), (ctx.pos("cc"), {"y": 1, "a": 1})])
    ineq = (Terms([(ctx.pos("c0"), {"a": 1}), (ctx.pos("c1"), {"y": 1, "b": 2}), (ctx.pos("c2"), {"y": 1})]),
            Terms([(1, {"x": 1})]))
    e = [{"x": 1, "a": -2}, {"a": 1, "b": 1}, {"y": 1}][ctx.choice("e", 3)]
    meq = (Terms([(ctx.pos("c3"), {"x": 1, "y": 1})]), Terms([(ctx.pos("c4"), e)]))
    both = [meq, (Terms([(1, {"y": 1})]), Terms([(ctx.pos("c5"), {"b": 1})]))]
    order = ctx.boolean("two")
    run(ctx, cost, [ineq], both if order else [meq], "xyab", ctx.boolean("nu"), tag="equality")


def grouped(terms, fixed, point):
    "{residual exponents: [terms]}"
    out = {}
    for c, exp in terms:
        k = tuple(sorted((n, e) for n, e in exp.items() if n not in fixed))
        out.setdefault(k, []).append((c, exp))
    return out


POS = [{"x": 1, "y": 1}, {"a": 1, "x": 1}, {"b": 1, "y": 1}, {"a": 1}]
NEG = [{"x": 1}, {"b": 1, "x": 1}, {"a": 1, "y": 1}, {"b": 2}]


def h_sig3(ctx):
    "signomial inequalities whose greater side keeps three terms over shared variables"
    names = "xyab"
    xs = {n: X(n) for n in names}
    point = {n: ctx.pos(n) for n in names}
    exps = [{"x": 1, "y": 1, "a": 1}, {"y": 1, "b": 1}, {"y": 2, "a": 1, "b": -1}, {"y": 2, "b": 1}]
    pos = Terms([(ctx.pos("p%d" % i), e) for i, e in enumerate(exps[:3 + ctx.choice("four", 2)])])
    less = [{"x": 1, "b": 1}, {"x": 1, "a": 1}, {"y": 1, "b": 1}]
    neg = Terms([(ctx.pos("n%d" % i), e) for i, e in enumerate(less[:1 + ctx.choice("neg", 3)])])
    signomial(ctx, xs, point, pos, neg, ["a", "b"], lambda sums: list(sums).index((("x", 1),)), "signomial3")


def h_sig(ctx):
    "signomial inequalities that become compatible with a GP on substitution"
    names = "xyab"
    xs = {n: X(n) for n in names}
    point = {n: ctx.pos(n) for n in names}
    pos, neg = picks(ctx, "p", 2, POS), picks(ctx, "n", 2, NEG)
    fixed = ["a", "b"] if ctx.boolean("both") else ["b"]
    signomial(ctx, xs, point, pos, neg, fixed,
              lambda sums: ctx.choice("negative", len(sums)), "signomial")


def signomial(ctx, xs, point, pos, neg, fixed, choose, tag):
    names = list(xs)
    allterms = pos.terms + [(-c, e) for c, e in neg.terms]
    groups = grouped(allterms, fixed, point)
    sums = {k: Terms(v).value(point) for k, v in groups.items()}
    which = choose(sums)
    for i, v in enumerate(sums.values()):
        if i == which:
            ctx.assume(v < 0)
        elif ctx.concrete:
            ctx.assume(v > 1e-6)
        else:
            ctx.assume(v > 0)
    ctx.assume(len(sums) > 1)
    with SignomialsEnabled():
        con = pos.nomial(xs) <= neg.nomial(xs)
    kneg = list(sums)[which]
    other = xs["y"] >= ctx.pos("cy")*xs["a"]
    cost = xs["x"]*xs["y"]**2
    gp = GeometricProgram(cost, gpkit.ConstraintSet([con, other]),
                          {xs[n].key: point[n] for n in fixed}, checkbounds=False)
    ctx.check(len(gp.k) == 3, tag+": one constraint each")
    la = [1, ctx.pos("la1"), ctx.pos("la2")]
    out = answer(ctx, gp, {xs[n].key: n for n in names}, point, ctx.boolean("nu"), la)
    res = result_of(gp, out)
    N = -sums[kneg]
    S = sum(v for k, v in sums.items() if k != kneg)
    want = {}
    for n in names:
        dS = sum(v*e.get(n, 0) for k, ts in groups.items() if k != kneg
                 for v, (_, e) in zip(Terms(ts).values(point), ts))
        dN = -sum(v*e.get(n, 0) for v, (_, e) in zip(Terms(groups[kneg]).values(point), groups[kneg]))
        want[n] = la[1]*(dS/S - dN/N)
    want["x"] = want["x"] + 1
    want["y"] = want["y"] + 2 - la[2]
    want["a"] = want["a"] + la[2]
    compare(ctx, res, xs, want, tag)
    ctx.eq(res["sensitivities"]["constraints"][con], la[1], tag+": constraint sensitivity")
    ctx.eq(res["sensitivities"]["constraints"][other], la[2], tag+": other constraint sensitivity")


def h_history(ctx):
    "the same constraints, compiled before with other values"
    names = "xyab"
    xs = {n: X(n) for n in names}
    x, y, a, b = (xs[n] for n in names)
    point = {n: ctx.pos(n) for n in names}
    c = [ctx.pos("c%d" % i) for i in range(4)]
    kind = ctx.choice("kind", 3)
    P = [Terms([(c[0], {"a": 1}), (c[1], {"x": 1, "y": 1}), (c[2], {"x": 1, "b": 1})]),
         Terms([(c[0], {"x": 1}), (c[1], {"y": 1}), (c[2], {"a": 1, "b": 1})]),
         Terms([(c[0], {"x": 1, "a": 1}), (c[1], {"x": 1, "b": 1}), (c[2], {"b": 1})])][kind]
    m = Terms([(c[3], {"y": 1, "b": 1} if kind == 1 else {"b": 1})])
    if kind == 2:
        ctx.assume(c[2] < c[3])
    con = P.nomial(xs) <= m.nomial(xs)
    eq = a*x == y*b
    cons = gpkit.ConstraintSet([con, eq])
    cost = x*y**2
    other = {n: ctx.pos("o"+n) for n in names}
    Pm = P.scaled(m)
    fsets = [[], ["a"], ["b"], ["a", "b"], ["x", "a", "b"]]
    first = fsets[[0, 3, 4][ctx.choice("first", 3)]]
    fixed = fsets[ctx.choice("then", 5)]
    def compiled(names_, pt):
        ctx.assume(const_part(Pm, pt, names_) < 1)
        return GeometricProgram(cost, cons, {xs[n].key: pt[n] for n in names_},
                                checkbounds=False)
    past = ctx.choice("past", 3)
    if past == 2:
        compiled([], other)
    before = compiled(first, other)
    if past == 1:
        la0 = [1]*len(before.k)
        result_of(before, answer(ctx, before, {xs[n].key: n for n in names}, other, False, la0))
    gp = compiled(fixed, point)
    la = [1] + [ctx.pos("la%d" % i) for i in range(len(gp.k)-1)]
    want = {"x": 1, "y": 2, "a": 0, "b": 0}
    i = 1
    ds = {n: dlog_leq1(Pm, point, n, fixed) for n in names}
    if ds["x"] is not None:
        for n in names:
            want[n] = want[n] + la[1]*ds[n]
        i = 2
    for n, e in {"a": 1, "x": 1, "y": -1, "b": -1}.items():
        want[n] = want[n] + e*(la[i]-la[i+1])
    nu = ctx.boolean("nu")
    out = answer(ctx, gp, {xs[n].key: n for n in names}, point, nu, la)
    compare(ctx, result_of(gp, dict(out)), xs, want, "history")
    if nu:
        compare(ctx, gp.generate_result(dict(out)), xs, want, "history")


def h_link(ctx):
    "links: chains, shared inputs, inputs used on their own, reset links"
    x = X("x")
    va, vb = ctx.pos("a"), ctx.pos("b")
    a, b = X("a", va), X("b", vb)
    k = ctx.pos("k")
    kind = ctx.choice("kind", 6)
    def fs():
        if kind == 0:
            return (lambda c: k*c[a]**2), k*va**2, {"a": 2}, None
        if kind == 1:
            return (lambda c: c[a]*c[b]), va*vb, {"a": 1, "b": 1}, None
        if kind == 2:
            return (lambda c: c[a] + k*c[b]), va+k*vb, {"a": va/(va+k*vb), "b": k*vb/(va+k*vb)}, None
        if kind == 3:
            return (lambda c: c[a]/c[b] + k), va/vb+k, {"a": (va/vb)/(va/vb+k), "b": -(va/vb)/(va/vb+k)}, None
        if kind == 4:      # a chain
            return (lambda c: c[v]**2*c[b]), (va*k)**2*vb, {"a": 2, "b": 1}, (lambda c: k*c[a])
        return (lambda c: c[v]*c[a] + c[b]), va*k*va+vb, \
            {"a": 2*va*k*va/(va*k*va+vb), "b": vb/(va*k*va+vb)}, (lambda c: k*c[a])
    f, vw, dlog, fv = fs()
    w, v = X("w"), X("v")
    if fv is None:
        v, vv, dv = X("v", ctx.pos("v")), None, {}
        vv = v.key.descr["value"]
    else:
        vv, dv = k*va, {"a": 1}
    where = ctx.choice("where", 3)
    cost = [x*w**2, x*w**2*a, x + w][where]
    cons = [x >= w*v*a, x >= b**2]   # a link's inputs have to be in the model
    subs = {w: f}
    if fv:
        subs[v] = fv
    m = Model(cost, cons, subs)
    reset = ctx.boolean("reset")
    if reset:
        m.gp(checkbounds=False)
        vw2 = ctx.pos("w2")
        m.substitutions.update({w: vw2})
        if fv:
            m.substitutions.update({v: vv})
        vw, dlog, dv = vw2, {}, {}
    gp = m.gp(checkbounds=False)
    vx = ctx.pos("x")
    point = {"x": vx, "a": va, "b": vb, "w": vw, "v": vv}
    la = [1] + [ctx.pos("la%d" % i) for i in range(len(gp.k)-1)]
    out = answer(ctx, gp, {kk: kk.name for kk in gp.varlocs}, point, False, la)
    res = result_of(gp, out)
    ctx.eq(res["variables"][w], vw, "link: value")
    ctx.eq(res["variables"][v], vv, "link: value")
    share = vx/(vx+vw) if where == 2 else 1
    cx, cw, ca = (share, 1-share, 0) if where == 2 else (1, 2, 1 if where == 1 else 0)
    dw, dvv = cw+la[1], la[1]
    direct = {"a": ca + la[1], "b": 2*la[2]}
    ctx.eq(res["sensitivities"]["variables"][x], cx-sum(la[1:]), "link: free sensitivity")
    for n, var in (("a", a), ("b", b)):
        want = direct[n] + dw*dlog.get(n, 0) + dvv*dv.get(n, 0)
        got = res["sensitivities"]["variables"]
        present = var.key in got
        if not present:
            ctx.eq(want, 0, "link: only zero sensitivities are left out")
        else:
            ctx.eq(got[var], want, "link: inputs get their whole sensitivity")
        wantc = (ca if n == "a" else 0) + cw*dlog.get(n, 0)
        ctx.eq(res["sensitivities"]["cost"].get(var.key, 0), wantc, "link: the cost's own sensitivity")
    if reset:
        ctx.eq(res["sensitivities"]["variables"][w], dw, "link: formerly linked variables have their own")
        ctx.eq(res["sensitivities"]["variables"][v], dvv, "link: formerly linked variables have their own")
    if not fv:
        ctx.eq(res["sensitivities"]["variables"][v], dvv, "link: other variables keep their own")


def h_vector(ctx):
    "elements of fixed vectors, in the vector's shape; units"
    n = 2
    x = VectorVariable(n, "x", "m")
    p = VectorVariable(n, "p", "ft")
    y = X("y")
    vp = [ctx.pos("p%d" % i) for i in range(n)]
    vx = [ctx.pos("x%d" % i) for i in range(n)]
    vy = ctx.pos("y")
    c = ctx.pos("c")
    cons = [x >= c*p, y >= x.sum()/gpkit.units("m")]
    subs = {p: arr(ctx, vp)} if ctx.boolean("whole") else {p[i]: vp[i] for i in range(n)}
    m = Model(y*p[1]/gpkit.units("ft"), cons, subs)
    gp = m.gp(checkbounds=False)
    la = [1] + [ctx.pos("la%d" % i) for i in range(3)]
    pt = {y.key: vy}
    pt.update({x[i].key: vx[i] for i in range(n)})
    out = {"objective": ctx.pos("objective"), "soltime": 0.0, "solver": "fn",
           "primal": arr(ctx, [ctx.log(pt[vk]) for vk in gp.varlocs]), "la": arr(ctx, la)}
    res = result_of(gp, out)
    sens = res["sensitivities"]["variables"]
    tot = sum(vx)
    for i in range(n):
        ctx.eq(sens[p[i]], la[1+i] + (1 if i == 1 else 0), "vector: element sensitivity")
        ctx.eq(sens[p][i], la[1+i] + (1 if i == 1 else 0), "vector: element sensitivity in place")
        ctx.eq(sens[x][i], la[3]*vx[i]/tot - la[1+i], "vector: element sensitivity in place")
        ctx.eq(res["variables"][x][i], vx[i], "vector: values in place")
        ctx.eq(res["variables"][p][i], vp[i], "vector: values in place")
    ctx.check(np.shape(sens[p]) == (n,), "vector: same shape as the values")


HARNESSES = [
    Harness("cost", h_cost, "cost of 3 terms from 6 exponents in a free and two fixable variables"),
    Harness("ineq", h_ineq, "inequality of 3 terms from 6 exponents against 4 monomials"),
    Harness("meq", h_meq, "cost, inequality and 1-2 equalities in 4 variables"),
    Harness("sig", h_sig, "signomial inequality of 2+2 terms collapsing on substitution of 1-2 variables"),
    Harness("sig3", h_sig3, "signomial inequality keeping 2-4 positive terms over shared variables, 1-3 negative terms"),
    Harness("history", h_history, max_paths=8000, bounds="3 constraints x 3 earlier x 5 later sets of fixed variables"),
    Harness("link", h_link, "6 links of 1-2 inputs and chains of 2; 3 costs"),
    Harness("vector", h_vector, "vectors of 2 with units"),
]
NOTE = "the dual answer is any primal-dual consistent one; the duals themselves are symbolic"
