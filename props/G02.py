"Unbounded and missing variables are reported exactly"
import re
from .gplib import *
from gpkit import Model, VectorVariable
from gpkit.constraints.set import ConstraintSet
from gpkit.exceptions import UnboundedGP


def closure(have, eqs):
    """least set of (name, direction) with: prod x_i**a_i == c gives x_i an upper
    bound once its same-signed fellows have lower and its others upper bounds,
    and the mirror image.   eqs: list of {name: +1/-1}"""
    have = set(have)
    opp = {"upper": "lower", "lower": "upper"}
    grew = True
    while grew:
        grew = False
        for eq in eqs:
            for n, s in eq.items():
                for d in ("upper", "lower"):
                    if (n, d) in have:
                        continue
                    if all((o, opp[d] if so == s else d) in have
                           for o, so in eq.items() if o != n):
                        have.add((n, d))
                        grew = True
    return have


def everything(names):
    return {(n, d) for n in names for d in ("upper", "lower")}


def sign(ctx, e):
    if ctx.holds(e == 0):
        return 0
    return 1 if ctx.holds(e > 0) else -1


def named(missing):
    return {(vk.name if vk.idx is None else vk.name+str(vk.idx[0]), d) for vk, d in missing}


def verdict(ctx, m, want, eqs, have, tag, parse=True):
    "m's program is rejected iff want (names, directions); the report is exact"
    gp = m.gp(checkbounds=False)
    ctx.check(named(gp.check_bounds()) == want, tag+": missing bounds are exactly reported")
    try:
        m.gp()
        ctx.check(not want, tag+": unbounded programs are rejected")
    except UnboundedGP as err:
        ctx.check(bool(want), tag+": bounded programs are not rejected")
        lines = str(err).split("\n\n")
        if parse:
            got = [re.match(r"(\w+) has no (\w+) bound", ln).groups() for ln in lines]
            ctx.check(sorted(got) == sorted(want), tag+": the error names them")
            for ln, bound in zip(lines, got):
                if "these sets" not in ln:
                    continue
                for cond in re.findall(r"\[([^]]*)\]", ln):
                    extra = set(re.findall(r"\((\w+), '(\w+)'\)", cond))
                    ctx.check(bool(extra) and extra <= want, tag+": offered sets are missing bounds")
                    ctx.check(bound in closure(have | extra, eqs), tag+": offered sets suffice")
    if not want:
        ctx.check(gp.check_bounds(err_on_missing_bounds=True) == {}, tag+": nothing is missing")


def mono(xs, exp, c=1):
    out = c
    for n, e in exp.items():
        out = out*xs[n]**e
    return out


def h_ineqs(ctx):
    "cost and inequalities with arbitrary exponents, a fixed variable"
    xs = {n: X(n) for n in "xya"}
    cost = {"x": ctx.real("e0"), "y": ctx.real("e1")}
    ineq = [{"x": ctx.real("e2"), "a": ctx.real("e3")}, {"y": ctx.real("e4")}]
    ctx.assume(cost["x"] != 0)
    ctx.assume(ineq[0]["a"] != 0)
    ctx.assume(ineq[1]["y"] != 0)
    fix = ctx.boolean("fix")
    c = ctx.pos("c")
    va = ctx.pos("a")
    if fix and ctx.holds(ineq[0]["x"] == 0):
        ctx.assume(c*va**ineq[0]["a"] < 1)
    lhs = mono(xs, ineq[0], c) + mono(xs, ineq[1])
    m = Model(mono(xs, cost), [lhs <= 1], {xs["a"]: va} if fix else {})
    have, present = set(), set()
    for e in [cost]+ineq:
        for n, v in e.items():
            s = sign(ctx, v)
            if s and not (fix and n == "a"):
                present.add(n)
                have.add((n, "upper" if s > 0 else "lower"))
    verdict(ctx, m, everything(present) - have, [], have, "inequalities")


def start(ctx, names, xs, pattern):
    "inequalities giving the bounds in pattern (0 none, 1 upper, 2 lower, 3 both)"
    have, cons = set(), []
    for n, p in zip(names, pattern):
        if p & 1:
            have.add((n, "upper"))
            cons.append(xs[n] <= 7)
        if p & 2:
            have.add((n, "lower"))
            cons.append(xs[n] >= 0.5)
    return have, cons


def run_eqs(ctx, names, eqs, pattern, order, tag, fixed=()):
    xs = {n: X(n) for n in names}
    have, cons = start(ctx, names, xs, pattern)
    signs = []
    for i, e in enumerate(eqs):
        con = mono(xs, e, ctx.pos("c%d" % i)) == 1
        if order:
            cons.insert(0, con)
        else:
            cons.append(con)
        signs.append({n: s for n, s in ((n, sign(ctx, v)) for n, v in e.items())
                      if s and n not in fixed})
    # a cost that bounds nothing new
    cost = xs[names[0]]*1
    have.add((names[0], "upper"))
    m = Model(cost, cons, {xs[n]: 2 for n in fixed})
    have = {(n, d) for n, d in have if n not in fixed}
    present = {n for n, _ in have} | {n for s in signs for n in s}
    want = everything(present) - closure(have, signs)
    verdict(ctx, m, want, signs, have, tag)


def h_pair(ctx):
    "two equalities of three variables with arbitrary exponents"
    e = [[ctx.real("e%d%s" % (i, n)) for n in "xyz"] for i in (0, 1)]
    ctx.assume(e[0][0] != 0)
    ctx.assume(e[1][2] != 0)
    ctx.assume(e[0][1] != 0)
    pattern = [[0, 0, 0], [0, 3, 0], [2, 0, 0], [2, 1, 0], [2, 2, 0],
               [0, 1, 1], [0, 2, 1], [0, 0, 3], [0, 1, 2], [2, 0, 1]][ctx.choice("pattern", 10)]
    run_eqs(ctx, "xyz", [dict(zip("xyz", r)) for r in e], pattern, ctx.boolean("order"), "pair")


def h_chain(ctx):
    "chains and loops of equalities between four variables"
    links = [[("x", "y"), ("y", "z"), ("z", "w")], [("z", "w"), ("x", "y"), ("w", "y")],
             [("x", "y"), ("y", "x"), ("z", "w")], [("w",), ("w", "z"), ("x", "z", "y")],
             [("x", "y", "z"), ("z", "w"), ("w", "y")]][ctx.choice("shape", 5)]
    eqs = []
    for i, ns in enumerate(links):
        eqs.append({n: ctx.nonzero("e%d%s" % (i, n)) for n in ns})
    pattern = [[0, 0, 0, 0], [2, 0, 0, 0], [0, 3, 0, 0], [0, 0, 1, 0], [0, 0, 0, 2],
               [0, 2, 0, 1]][ctx.choice("pattern", 6)]
    fixed = ["", "z", "y"][ctx.choice("fixed", 3)]
    run_eqs(ctx, "xyzw", eqs, pattern, False, "chain", fixed)


def h_static(ctx):
    "the bounds a set of constraints says it provides"
    names = "xyz"
    xs = {n: X(n) for n in names}
    pattern = [[0, 0, 0], [3, 0, 0], [1, 2, 0], [2, 0, 1]][ctx.choice("pattern", 4)]
    have, cons = start(ctx, names, xs, pattern)
    eqs = [{"x": ctx.real("e0"), "y": ctx.nonzero("e1")},
           [{"z": ctx.nonzero("e2")}, {"x": ctx.nonzero("e2"), "z": ctx.real("e3")},
            {"y": ctx.real("e3"), "z": ctx.nonzero("e2"), "x": ctx.nonzero("e4")}][ctx.choice("eq", 3)]]
    signs = []
    made = [mono(xs, e, ctx.pos("c%d" % i)) == 1 for i, e in enumerate(eqs)]
    signs = [{n: s for n, s in ((n, sign(ctx, v)) for n, v in e.items()) if s} for e in eqs]
    nest = ctx.choice("nest", 3)
    if nest == 0:
        cset = ConstraintSet(cons + made)
    elif nest == 1:
        cset = ConstraintSet([made[0], ConstraintSet(made[1:]), ConstraintSet(cons)])
    else:
        cset = ConstraintSet([ConstraintSet([made]), {"a": ConstraintSet(cons)}])
    fix = ctx.boolean("fix")
    if fix:
        cset = ConstraintSet(cset, {xs["y"]: ctx.pos("vy")})
        have |= everything("y")
    have = closure(have, signs)
    ctx.check(named(cset.bounded) == have, "the constraints' own account of their bounds")
    missing = everything({vk.name for vk in cset.vks}) - have
    ctx.check(named(cset.meq_bounded) <= missing, "only missing bounds are conditional")


def h_vector(ctx):
    "vector elements are bounded one by one; several constraints per variable"
    v = VectorVariable(3, "v")
    x = X("x")
    e = [ctx.nonzero("e%d" % i) for i in range(3)]
    which = ctx.choice("which", 3)
    cons = [v[which] >= 1, v[0]**e[0]*v[1]**e[1] == 2, x**e[2] <= v[2]**2]
    if ctx.boolean("cap"):
        cons.append(v <= 3)
    m = Model(x, cons)
    have = {("x", "upper"), ("v%d" % which, "lower"), ("v2", "lower")}
    s = [sign(ctx, v_) for v_ in e]
    have.add(("x", "upper" if s[2] > 0 else "lower"))
    if len(cons) == 4:
        have |= {("v%d" % i, "upper") for i in range(3)}
    eqs = [{"v0": s[0], "v1": s[1]}]
    want = everything(["x", "v0", "v1", "v2"]) - closure(have, eqs)
    verdict(ctx, m, want, eqs, have, "vector", parse=False)


def h_wide(ctx):
    "an equality of five variables, any of whose bounds are given"
    names = "vwxyz"
    e = {n: s for n, s in zip(names, [1, 1, -1, 2, -1])}
    e["z"] = ctx.nonzero("e")
    pattern = [[3, 2, 0, 1][ctx.choice("p"+n, 4)] for n in names]
    run_eqs(ctx, names, [e], pattern, False, "wide")


HARNESSES = [
    Harness("wide", h_wide, "an equality of 5 variables, all sets of given bounds", max_paths=20000),
    Harness("ineqs", h_ineqs, "a cost and an inequality of 3 variables, arbitrary real exponents"),
    Harness("pair", h_pair, "2 equalities of 3 variables, arbitrary real exponents; 10 sets of given bounds", max_paths=20000),
    Harness("chain", h_chain, "5 chains of 3 equalities in 4 variables, arbitrary exponents; 6 sets of given bounds; 3 of fixed variables", max_paths=20000),
    Harness("static", h_static, "2 equalities of 3 variables; 4 sets of given bounds; 3 nestings", max_paths=20000),
    Harness("vector", h_vector, "a vector of 3"),
]
