"The compiled geometric program is the model as written"
import gpkit
from .gplib import *
from gpkit import Model, VectorVariable
from gpkit.constraints.gp import GeometricProgram
from gpkit.constraints.set import ConstraintSet
from gpkit.exceptions import InvalidPosynomial


def dense(ctx, gp):
    "{(row, col): exponent}; the matrix solvers get, by its entries"
    A = gp.A
    coo = A.tocsr().tocoo()
    out = {}
    for i, j, v in zip(coo.row, coo.col, coo.data):
        out[int(i), int(j)] = out.get((int(i), int(j)), 0) + v
    raw = {}
    for i, j, v in zip(A.row, A.col, A.data):
        raw[int(i), int(j)] = raw.get((int(i), int(j)), 0) + v
    ctx.check(set(raw) == set(out), "the sparse formats agree")
    for ij in raw:
        ctx.eq(raw[ij], out.get(ij, 0), "the sparse formats agree")
    return out


def consistent(ctx, gp, free):
    "internal structure; returns {(row, col): exponent}"
    n = len(gp.cs)
    ctx.check(len(gp.exps) == n and len(gp.p_idxs) == n and sum(gp.k) == n,
              "as many coefficients, exponents and indices as monomials")
    at = 0
    for p, size in enumerate(gp.k):
        ctx.check(size > 0, "no empty constraint")
        ctx.check([int(gp.p_idxs[i]) for i in range(at, at+size)] == [p]*size,
                  "monomials belong to consecutive constraints")
        ctx.check((gp.m_idxs[p].start, gp.m_idxs[p].stop) == (at, at+size), "monomial slices")
        at += size
    cols = {}
    for vk, j in gp.varidxs.items():
        ctx.check(j not in cols, "one column per variable")
        cols[j] = vk
    ctx.check(sorted(cols) == list(range(len(cols))), "columns are numbered consecutively")
    ctx.check(list(gp.varlocs) == [cols[j] for j in sorted(cols)], "columns in variable order")
    ctx.check(set(gp.varlocs) <= set(free), "only free variables have a column")
    A = dense(ctx, gp)
    rows = set(i for i, _ in A)
    ctx.check(rows == set(range(n)), "every monomial has a row")
    ctx.check(all(j < max(len(cols), 1) for _, j in A), "no other columns")
    for i in range(n):
        for vk, j in gp.varidxs.items():
            ctx.eq(A.get((i, j), 0), gp.exps[i].get(vk, 0), "matrix entries are the exponents")
        ctx.check(gp.cs[i] > 0, "positive coefficients")
    for vk, locs in gp.varlocs.items():
        ctx.check(sorted(set(locs)) == [i for i in range(n) if vk in gp.exps[i]],
                  "variable locations")
    return A, cols


def posy_value(gp, A, cols, p, byvk):
    tot = 0
    for i in range(gp.m_idxs[p].start, gp.m_idxs[p].stop):
        v = gp.cs[i]
        for j, vk in cols.items():
            if (i, j) in A:
                v = v*byvk[vk]**A[i, j]
        tot = tot + v
    return tot


def compare(ctx, gp, cost, leqs, byvk, fixed, tag):
    """leqs: [(P Terms  (P <= 1), byname point, is equality half)] in order"""
    free = {vk for vk in byvk if vk.name not in fixed}
    A, cols = consistent(ctx, gp, free)
    point = {vk.name: v for vk, v in byvk.items()}
    ctx.eq(posy_value(gp, A, cols, 0, byvk), cost.value(point), tag+": cost")
    want = []
    for P, meq in leqs:
        merged = [t for t in P.terms]
        cpart = const_part(P, point, fixed)
        fpart = sum([v for v, (_, e) in zip(P.values(point), P.terms)
                     if any(n not in fixed for n in e)])
        if any(any(n not in fixed for n in e) for _, e in merged):
            want.append((fpart, 1-cpart, meq))
    ctx.check(len(gp.k) == 1+len(want), tag+": every constraint once")
    if len(gp.k) != 1+len(want):
        return
    halves = []
    for p, (num, den, meq) in enumerate(want):
        got = posy_value(gp, A, cols, p+1, byvk)
        ctx.eq(got*den, num, tag+": constraint as written")
        start = gp.m_idxs[p+1].start
        ctx.check((start in gp.meq_idxs.all) == meq, tag+": equalities are marked, and only those")
        if meq:
            halves.append(start)
    ctx.check(set(gp.meq_idxs.first_half) == set(halves[::2]), tag+": first half of each equality")


EXPS = [{}, {"x": 1}, {"a": 1}, {"x": 1, "a": 1}, {"y": 1, "b": -1}, {"x": 2, "y": -1}]


def build(ctx, cost, cons, names, fixed, tag, nest=None):
    """cons: [(Terms lhs, "<=" or "==", Terms single)]"""
    xs = {n: X(n) for n in names}
    point = {n: ctx.pos(n) for n in names}
    made, leqs = [], []
    for l, op, r in cons:
        P = l.scaled(r)
        if op == "<=":
            ctx.assume(const_part(P, point, []) < 1)
            ctx.assume(const_part(P, point, fixed) < 1)
            made.append(l.nomial(xs) <= r.nomial(xs))
            leqs.append((P, False))
        else:
            if not any(n not in fixed for n in P.terms[0][1]):
                continue
            ln, rn = l.nomial(xs), r.nomial(xs)
            made.append(ln == rn)
            halves = [(P, True), (r.scaled(l), True)]
            # python hands == to a more derived right operand first
            leqs += halves[::1 if made[-1].left is ln else -1]
    m = Model(cost.nomial(xs), nest(made) if nest else made, {xs[n]: point[n] for n in fixed})
    gp = m.gp(checkbounds=False)
    ctx.check(len(gp.substitutions) == len([n for n in fixed if xs[n].key in m.vks]),
              tag+": exactly the fixed values are substituted")
    for n in fixed:
        if xs[n].key in gp.substitutions:
            ctx.eq(gp.substitutions[xs[n].key], point[n], tag+": fixed values")
    compare(ctx, gp, cost, leqs, {xs[n].key: point[n] for n in names}, fixed, tag)
    return m, gp


def h_terms(ctx):
    "terms that merge, vanish from view or become constant; any values"
    pairs = [(i, j) for i in range(6) for j in range(i)]
    P = Terms([(ctx.pos("c%d" % i), EXPS[i]) for i in pairs[ctx.choice("t", 15)]])
    M = Terms([(ctx.pos("m"), [{}, {"x": 1}, {"a": 1, "y": 1}][ctx.choice("mk", 3)])])
    cost = Terms([(ctx.pos("k0"), {"x": 1, "a": 1}), (ctx.pos("k1"), {"x": 1}), (ctx.pos("k2"), {"b": 1})])
    fixed = [n for n in "aby" if ctx.boolean("fix"+n)]
    eq = (Terms([(ctx.pos("q"), {"x": 1})]), "==", Terms([(1, {"y": 1, "b": 1})]))
    build(ctx, cost, [(P, "<=", M), eq], "xyab", fixed, "terms")


def h_exps(ctx):
    "arbitrary real exponents"
    def term_(i, names):
        return ctx.pos("c%d" % i), {n: ctx.real("e%d%s" % (i, n)) for n in names}
    cost = Terms([term_(0, "xy")])
    P = Terms([term_(1, "xa"), term_(2, "y")])
    M = Terms([(1, {"x": 1})])
    eq = (Terms([term_(3, "xy")]), "==", Terms([(1, {"y": 1, "a": 1})]))
    ctx.assume(cost.terms[0][1]["x"] != 0)
    for T in (cost, P, eq[0]):
        T.terms[:] = [(c, {n: e for n, e in exp.items() if e != 0}) for c, exp in T.terms]
    fixed = ["a"] if ctx.boolean("fixa") else []
    order = [(P, "<=", M), eq]
    build(ctx, cost, order if ctx.boolean("order") else order[::-1], "xya", fixed, "exponents")


def h_nest(ctx):
    "several constraints and equalities, in nested containers, in order"
    T = [(Terms([(ctx.pos("c0"), {"x": 1}), (ctx.pos("c1"), {"a": 1})]), "<=", Terms([(1, {"y": 1})])),
         (Terms([(ctx.pos("c2"), {"x": 1, "a": -1})]), "==", Terms([(ctx.pos("c3"), {"y": 2})])),
         (Terms([(ctx.pos("c4"), {"y": 1})]), "<=", Terms([(1, {"x": 1, "y": 1})])),
         (Terms([(ctx.pos("c5"), {"y": 1})]), "==", Terms([(ctx.pos("c6"), {"b": 1})]))]
    perm = ctx.choice("perm", 4)
    T = T[perm:]+T[:perm]
    how = ctx.choice("how", 5)
    def nest(cs):
        if how == 0:
            return [cs[:1], [cs[1:2], ConstraintSet(cs[2:])]]
        if how == 1:
            return {"second": {"q": cs[0], "z": cs[1:3]}, "first": cs[3:]}
        if how == 2:
            return [Model(None, cs[:2]), cs[2:]]
        if how == 3:
            return ConstraintSet([Model(X("q"), ConstraintSet([c])) for c in cs])
        return tuple(cs)
    fixed = [n for n in "ab" if ctx.boolean("fix"+n)]
    cost = Terms([(1, {"x": 1}), (ctx.pos("k"), {"y": -1})])
    build(ctx, cost, T, "xyab", fixed, "nested", nest)


def h_units(ctx):
    "units, vectors and quantities all end in each variable's own units"
    x, a = X("x", "ft"), X("a", "m")
    v = VectorVariable(2, "v", "inch")
    vx, va = ctx.pos("x"), ctx.pos("a")
    vv = [ctx.pos("v0"), ctx.pos("v1")]
    FT, IN = 0.3048, 0.0254
    c = ctx.pos("c")
    cons = [x + a <= c*v, v.prod() == x*a, x >= 2*gpkit.units("ft")]
    fix = ctx.choice("fix", 4)
    subs = [{}, {a: va}, {a: va*gpkit.units("m")}, {v: arr(ctx, vv), a: va}][fix]
    m = Model(x**2 + v[0]*x, cons, subs)
    byvk = {x.key: vx, a.key: va, v[0].key: vv[0], v[1].key: vv[1]}
    meq = cons[1]
    if fix == 3:
        ctx.assume(c*vv[0]*IN > va)
        ctx.assume(c*vv[1]*IN > va)
    gp = m.gp(checkbounds=False)
    free = {vk for vk in byvk if vk not in gp.substitutions}
    A, cols = consistent(ctx, gp, free)
    ctx.check(len(free) == [4, 3, 3, 1][fix], "units: fixed variables")
    for vk in gp.substitutions:
        ctx.eq(gp.substitutions[vk], byvk[vk], "units: fixed values")
    ctx.eq(posy_value(gp, A, cols, 0, byvk), vx*vx + vv[0]*IN/FT*vx, "units: cost in its units")
    ctx.check(len(gp.k) == 6, "units: every constraint once")
    X_, A_, V_ = vx*FT, va, [w*IN for w in vv]
    for i in range(2):
        got = posy_value(gp, A, cols, 1+i, byvk)
        if fix == 3:
            ctx.eq(got*(c*V_[i]-A_), X_, "units: vector elements, constants moved")
        else:
            ctx.eq(got*c*V_[i], X_ + A_, "units: vector elements")
    half = V_[0]*V_[1]/(X_*A_)
    ctx.eq(posy_value(gp, A, cols, 3, byvk), half, "units: equality")
    ctx.eq(posy_value(gp, A, cols, 4, byvk)*half, 1, "units: equality")
    ctx.eq(posy_value(gp, A, cols, 5, byvk)*vx, 2, "units: bound")
    ctx.check(gp.meq_idxs.all == {gp.m_idxs[3].start, gp.m_idxs[4].start}, "units: equalities marked")


def h_sig(ctx):
    "signomial constraints that become compatible on substitution; other constants"
    x, y, a = X("x"), X("y"), X("a")
    vx, vy, va = ctx.pos("x"), ctx.pos("y"), ctx.pos("a")
    c, d, e = ctx.pos("c"), ctx.pos("d"), ctx.pos("e")
    kind = ctx.choice("kind", 3)
    for v in [[c, 1-d*va], [c-d*va], [e-d-c*va]][kind]:
        ctx.assume(v > (1e-6 if ctx.concrete else 0))
    with SignomialsEnabled():
        if kind == 0:
            con = c*x + d*a*y >= e*y*x + y        # y: d*a-1
            f = lambda X, Y: (e*Y*X + (1-d*va)*Y, c*X)
        elif kind == 1:
            con = a*x*y <= c*x - d*a*x + e*0*y     # x: c-d*a
            f = lambda X, Y: (va*X*Y, (c-d*va)*X)
        else:
            con = c*x*a + d*x + y <= e*x
            f = lambda X, Y: (Y, (e-d-c*va)*X)
    m = Model(x/y, [y >= 1, con], {a: va})
    gp = m.gp(checkbounds=False)
    byvk = {x.key: vx, y.key: vy, a.key: va}
    A, cols = consistent(ctx, gp, {x.key, y.key})
    ctx.check(len(gp.k) == 3, "signomial: every constraint once")
    l, r = f(vx, vy)
    ctx.eq(posy_value(gp, A, cols, 2, byvk)*r, l, "signomial: as written")
    ctx.eq(posy_value(gp, A, cols, 1, byvk)*vy, 1, "signomial: the other constraint")


def h_edge(ctx):
    "no variables left, no constraints, unused constants, repeated constraints"
    x, a = X("x"), X("a")
    vx, va = ctx.pos("x"), ctx.pos("a")
    kind = ctx.choice("kind", 5)
    c = ctx.pos("c")
    if kind == 0:
        gp = Model(c*x, [x >= a], {a: va, x: va+1}).gp(checkbounds=False)
        consistent(ctx, gp, set())
        ctx.check(len(gp.k) == 1, "edge: satisfied constraints disappear")
        ctx.eq(gp.cs[0], c*(va+1), "edge: constant cost")
    elif kind == 1:
        gp = Model(c*x).gp(checkbounds=False)
        A, cols = consistent(ctx, gp, {x.key})
        ctx.eq(posy_value(gp, A, cols, 0, {x.key: vx}), c*vx, "edge: cost only")
    elif kind == 2:
        con = x >= c*a
        gp = Model(x, [con, [con], con], {a: va}).gp(checkbounds=False)
        A, cols = consistent(ctx, gp, {x.key})
        ctx.check(len(gp.k) == 4, "edge: a repeated constraint stays repeated")
        for p in (1, 2, 3):
            ctx.eq(posy_value(gp, A, cols, p, {x.key: vx})*vx, c*va, "edge: repeated")
    elif kind == 3:
        gp = Model(None, [x >= c*a], {a: va}).gp(checkbounds=False)
        A, cols = consistent(ctx, gp, {x.key})
        ctx.eq(posy_value(gp, A, cols, 0, {x.key: vx}), 1, "edge: no cost is a cost of one")
    else:
        gp = Model(x + c*a, [x >= 1 + c*a], {a: va}).gp(checkbounds=False)
        A, cols = consistent(ctx, gp, {x.key})
        ctx.eq(posy_value(gp, A, cols, 0, {x.key: vx}), vx + c*va, "edge: constants in the cost")
        ctx.eq(posy_value(gp, A, cols, 1, {x.key: vx})*vx, 1 + c*va, "edge: constants")


def h_again(ctx):
    "compiling again with other values is compiling afresh"
    x, y, a = X("x"), X("y"), X("a")
    c, d = ctx.pos("c"), ctx.pos("d")
    cons = [y >= c*x + d*a, a == x*y]
    m = Model(x*a + y, cons)
    vals = [None, ctx.pos("a1"), ctx.pos("a2")]
    seq = ctx.choice("seq", 6)
    for i in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 0), (1, 1)][seq]:
        if vals[i] is None:
            m.substitutions.pop(a.key, None)
        else:
            m.substitutions.update({a: vals[i]})
        gp = m.gp(checkbounds=False)
    va = ctx.pos("a") if vals[i] is None else vals[i]
    point = {"x": ctx.pos("x"), "y": ctx.pos("y"), "a": va}
    P = Terms([(c, {"x": 1, "y": -1}), (d, {"a": 1, "y": -1})])
    R = Terms([(1, {"x": 1, "y": 1, "a": -1})])
    E = Terms([(1, {"x": -1, "y": -1, "a": 1})])
    cost = Terms([(1, {"x": 1, "a": 1}), (1, {"y": 1})])
    compare(ctx, gp, cost, [(P, False), (E, True), (R, True)],
            {v.key: point[v.key.name] for v in (x, y, a)}, ["a"] if i else [], "again")


def h_many(ctx):
    "hundreds of constraints"
    n = [130, 300][ctx.choice("n", 2)]
    cs = [ctx.pos("c%d" % i) for i in range(3)]
    x, y = X("x"), X("y")
    cons = [(i+1)*cs[i % 3]*x + y**2 <= (i+2)*y for i in range(n)]
    gp = Model(1/x, cons).gp(checkbounds=False)
    consistent(ctx, gp, {x.key, y.key})
    ctx.check([int(p) for p in gp.p_idxs] == [0] + [p+1 for p in range(n) for _ in range(2)], "many: groups")
    ctx.check([int(k) for k in gp.k] == [1] + [2]*n, "many: sizes")
    for i in range(n):
        row = [gp.cs[1+2*i], gp.cs[2+2*i]]
        exps = [dict(e) for e in gp.exps[1+2*i:3+2*i]]
        first = 0 if x.key in exps[0] else 1
        ctx.eq(row[first]*(i+2), (i+1)*cs[i % 3], "many: coefficients")
        ctx.eq(row[1-first]*(i+2), 1, "many: coefficients")


def h_cost(ctx):
    "costs whose terms are not all positive once values are in"
    x, a, b = X("x"), X("a"), X("b")
    va, vb = ctx.real("va"), ctx.real("vb")
    form = ctx.choice("form", 3)
    cost = [2*x + a*x**2, a*x + b*x, a*x**2 + b*x + x][form]
    coefs = [[va], [va + vb], [va, vb + 1]][form]
    # substitutions of zero are separate
    for v in (va, vb):
        ctx.assume(v != 0)
    for v in coefs:
        ctx.assume(v != 0)
    m = Model(cost, [x >= 1], {a: va, b: vb})
    try:
        gp = m.gp(checkbounds=False)
    except InvalidPosynomial:
        ctx.check(not all(ctx.holds(v > 0) for v in coefs), "cost: refused only if some term is negative")
    else:
        ctx.check(all(ctx.holds(v > 0) for v in coefs), "cost: negative terms are refused")
        A, cols = consistent(ctx, gp, {x.key})
        vx = ctx.pos("x")
        want = [2*vx + va*vx*vx, (va+vb)*vx, va*vx*vx + (vb+1)*vx][form]
        ctx.eq(posy_value(gp, A, cols, 0, {x.key: vx}), want, "cost: value")


HARNESSES = [
    Harness("terms", h_terms, "2 of 6 terms against 3 monomials, an equality, a 3-term cost; 8 sets of fixed variables"),
    Harness("exps", h_exps, "cost, inequality and equality of 4 terms with arbitrary real exponents", max_paths=12000),
    Harness("nest", h_nest, "4 constraints in 5 nestings and 4 orders"),
    Harness("units", h_units, "4 sets of fixed variables; ft, m, inch; vectors of 2"),
    Harness("sig", h_sig, "3 signomial constraints"),
    Harness("edge", h_edge, "5 shapes"),
    Harness("many", h_many, "130 and 300 two-term constraints with 3 symbolic coefficients"),
    Harness("cost", h_cost, "3 costs, 2 fixed variables of any value but zero"),
    Harness("again", h_again, "6 sequences of 2 compilations"),
]
