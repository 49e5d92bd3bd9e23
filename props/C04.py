"Relaxations contain the original problem and are exact at no relaxation"
import contextlib
import io
import re
import numpy as np
import gpkit
from .lib import *
from .gplib import arr
from .textlib import printing
from .W02 import unchecked
from gpkit import Model, VectorVariable
from gpkit.keydict import KeyDict
from gpkit.nomials.substitution import parse_subs
from gpkit.constraints.set import ConstraintSet
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.gp import GeometricProgram
from gpkit.small_scripts import appendsolwarning
from gpkit.constraints.relax import (ConstraintsRelaxedEqually, ConstraintsRelaxed,
                                     ConstantsRelaxed, get_relaxed)


def make(ctx, i, xs, vs, kinds=(0, 1, 2, 3, 4, 5)):
    "a constraint, and [(left value, right value)] of its left <= right halves per scalar constraint"
    c, d = ctx.pos("c%d" % i), ctx.pos("d%d" % i)
    x, y = xs
    vx, vy = vs
    kind = kinds[ctx.choice("kind%d" % i, len(kinds))]
    if kind == 0:
        return c*x + d*y <= 1, [[(c*vx + d*vy, 1)]]
    if kind == 1:
        return y >= c*x + d, [[(c*vx + d, vy)]]
    if kind == 2:
        return c*x == d*y, [[(c*vx, d*vy), (d*vy, c*vx)]]
    if kind == 3:
        v = gpkit.NomialArray([x, y])
        return v >= c, [[(c, vx)], [(c, vy)]]
    if kind == 4:
        with SignomialsEnabled():
            return c*x + d*y >= x*y + 1, [[(vx*vy + 1, c*vx + d*vy)]]
    with SignomialsEnabled():
        return x*y <= c*x + d, [[(vx*vy, c*vx + d)]]


def nested(ctx, cons, name):
    how = ctx.choice(name, 5)
    if how == 0:
        return list(cons)
    if how == 1:
        return {"l%d" % i: c for i, c in enumerate(cons)}
    if how == 2:
        return ConstraintSet(cons)
    if how == 3:
        return [[cons[0]], ConstraintSet(list(cons[1:]))]
    return Model(X("cost"), cons)


def sides(c, point):
    "(smaller side, greater side) values of an inequality"
    l, r = value(c.left, point), value(c.right, point)
    return (l, r) if c.oper == "<=" else (r, l)


def relaxed_ok(ctx, got, halves, factor, point, tag):
    "the relaxed constraints are  left <= factor*right  for every half"
    got = list(got)
    ctx.check(len(got) == len(halves), tag+": one relaxed inequality per half")
    for g, (l, r) in zip(got, halves):
        a, b = sides(g, point)
        ctx.eq(a*r*factor, b*l, tag+": relaxed by exactly its factor")
        if ctx.holds(l <= r):
            ctx.check(a <= b, tag+": still admits every point of the original")
        ctx.check(set(g.vks) >= set(), tag+": variables")
        if not hasattr(g, "as_gpconstr"):
            # its normal form too
            hms = g.as_hmapslt1({})
            ctx.check(len(hms) == 1, tag+": one normal form")
            if ctx.holds(l <= factor*r):
                ctx.le(value(hms[0], point), 1, tag+": the normal form admits it")
            else:
                ctx.check(value(hms[0], point) > 1, tag+": the normal form does not admit it")


def h_constraints(ctx):
    "both kinds of relaxed constraints"
    xs, vs, point = setup(ctx, "xy")
    val = ctx.pos("yval")
    cons, halves = [], []
    for i in range(2):
        c, h = make(ctx, i, xs, vs, (0, 2, 4) if i else (0, 1, 2, 3, 5))
        cons.append(c)
        halves.extend(h)
    subs = {xs[1]: val} if ctx.boolean("subs") else {}
    orig = nested(ctx, cons, "how")
    if subs:
        orig = ConstraintSet(orig, subs) if not isinstance(orig, Model) else Model(
            X("cost"), cons, substitutions=subs)
    equally = ctx.boolean("equally")
    f = ConstraintsRelaxedEqually(orig) if equally else ConstraintsRelaxed(orig)
    n = len(halves)
    if equally:
        rv = [f.relaxvar]*n
    else:
        ctx.check(len(f.relaxvars) == n, "one relaxation variable per constraint")
        rv = list(f.relaxvars)
        ctx.check(len({r.key for r in rv}) == n, "all different")
    factors = [ctx.pos("r0" if equally else "r%d" % i) for i in range(n)]
    for r, fac in zip(rv, factors):
        ctx.assume(fac >= 1)
        point[r.key] = fac
    mins = list(f["minimum relaxation"].flat() if hasattr(f["minimum relaxation"], "flat")
                else f["minimum relaxation"]) if not equally else [f["minimum relaxation"]]
    ctx.check(len(mins) == (1 if equally else n), "every factor is bounded below")
    for m, r in zip(mins, rv):
        hm, = m.as_hmapslt1({})
        ctx.eq(value(hm, point)*point[r.key], 1, "by 1")
    rel = f["relaxed constraints"]
    ctx.check(len(rel) == n, "one relaxed entry per constraint")
    for got, h, fac in zip(rel, halves, factors):
        relaxed_ok(ctx, got, h, fac, point, "relaxed")
    ctx.check((xs[1] in f.substitutions) == bool(subs), "substitutions kept")
    if subs:
        ctx.eq(f.substitutions[xs[1]], val, "substitutions kept")
    ctx.check(xs[0] not in f.substitutions, "nothing else fixed")


def h_exact(ctx):
    "with every factor at 1 the normal forms are the original's, in order"
    xs, vs, point = setup(ctx, "xy")
    cons = []
    for i in range(2):
        c, d = ctx.pos("c%d" % i), ctx.pos("d%d" % i)
        kind = ctx.choice("kind%d" % i, 4)
        x, y = xs
        cons.append([c*x + d*y <= 1, y >= c*x + d, c*x == d*y,
                     gpkit.NomialArray([x, y]) >= c][kind])
    orig = ConstraintSet(cons)
    want = list(orig.as_hmapslt1({}))
    equally = ctx.boolean("equally")
    f = ConstraintsRelaxedEqually(orig) if equally else ConstraintsRelaxed(orig)
    ones = {r.key: 1 for r in ([f.relaxvar] if equally else f.relaxvars)}
    got = list(f.as_hmapslt1(ones))
    ctx.check(len(got) == len(want), "exact: as many normal forms")
    for g, w in zip(got, want):
        ctx.check(set(g) == set(w), "exact: same terms")
        for e in w:
            if e in g:
                ctx.eq(g[e], w[e], "exact: same coefficients")


def h_constants(ctx):
    "relaxed constants: scalars, vectors, zeros, links, units, exclusions"
    va, vb = ctx.pos("va"), ctx.pos("vb")
    twin = ctx.choice("twin", 3)  # one of the same name in another model, or in other units
    with gpkit.NamedVariables("Sub"):
        b = X("a", vb, "ft")
    a, x = X("a", va, "ft"), X("x", "m")
    if twin == 2:
        b = X("a", vb, "m")
    fixedvec = ctx.choice("vec", 3)
    link = ctx.choice("link", 5)
    zero = ctx.boolean("zero")
    cons = [x >= a]
    want = {a.key: va}               # constants that may be relaxed
    if twin:
        cons.append(x >= b)
        want[b.key] = vb
    if fixedvec:
        val = [vb, vb+1] if not ctx.concrete else np.array([float(vb), float(vb)+1])
        v = VectorVariable(2, "v", val)
        if fixedvec == 1:
            cons.append(X("z") >= v)
            want[v[0].key] = vb
        else:
            cons.append(X("z") >= v[1])
        want[v[1].key] = vb+1
    kl = None
    if link:
        if link == 1:
            l, vl, unit = X("l", lambda c: 2*c[a.key]), 2*va, 1
        elif link == 2:     # of a quantity, in other units
            l, vl, unit = X("l", "m", lambda c: 2*c(a)), 2*va*0.3048, gpkit.units("m")
        else:               # of another link
            n = X("k" if link == 3 else "n", "m", lambda c: c[a.key]*3)
            l, vl, unit = X("l", "ft", lambda c: c(n)*c[a.key]), 3*va**2/0.3048, gpkit.units("ft")
            cons.append(X("w") >= n/gpkit.units("m"))
            want[n.key] = 3*va
        cons.append(X("w") >= l*a/gpkit.units("ft")/unit)
        kl = l.key
        want[kl] = vl
    if zero:
        o = X("o", 0)
        cons.append(X("w") >= o + 1)
    orig = ConstraintSet(cons) if ctx.boolean("listed") else cons
    which = ctx.choice("only", 3)
    kw = {}
    if which == 1:
        kw["include_only"] = ["a", "v"]
    elif which == 2:
        kw["exclude"] = ["a", "o"]
    f = ConstantsRelaxed(orig, **kw)
    fixed = {k: v for k, v in want.items()
             if which == 1 and k.name not in ("a", "v") or which == 2 and k.name == "a"}
    free = {k: v for k, v in want.items() if k not in fixed}
    ctx.check({v.key for v in f.freedvars} == set(free), "constants: frees exactly the right ones")
    ctx.check(len(f.relaxvars) == len(free), "constants: one factor each")
    constants, sweeps, links = parse_subs(KeySetOf(f), f.substitutions)
    if links:
        kd = KeyDict(constants)
        constants.update({k: fn(kd) for k, fn in links.items()})
    for k, v in want.items():
        ctx.check(k in f.constants, "constants: their values are noted")
        if k in f.constants:
            ctx.eq(f.constants[k], v, "constants: their values are noted")
    for k, v in fixed.items():
        ctx.check(k in constants, "constants: the others stay fixed")
        if k in constants:
            ctx.eq(constants[k], v, "constants: the others stay fixed")
    if zero:
        ctx.check(o.key in constants and constants[o.key] == 0, "constants: zeros stay fixed")
    for k in free:
        ctx.check(k not in constants, "constants: freed")
    ctx.check(f["original constraints"] is orig or list(f["original constraints"].flat())
              == list(ConstraintSet(cons).flat()), "constants: the constraints are kept")
    rc = f["relaxation constraints"]
    ctx.check(len(list(ConstraintSet([rc] if len(rc) else []).flat())) == 3*len(free),
              "constants: constraints for each")
    if not free:
        return
    # every freed constant lies within its own factor of its value
    facs = {}
    seen = set()
    for i, (r, fr) in enumerate(zip(f.relaxvars, f.freedvars)):
        facs[r.key] = ctx.pos("r%d" % i)
        ctx.assume(facs[r.key] >= 1)
        val = free[fr.key]
        now = ctx.pos("now%d" % i)
        cs = [c for c in ConstraintSet(rc[str(fr.key)]).flat() if fr.key in c.vks or r.key in c.vks]
        hms = [hm for c in cs for hm in c.as_hmapslt1(constants)]
        ctx.check(len(hms) == 3, "constants: minimum, lower and upper")
        point = {r.key: facs[r.key], fr.key: now}
        vals = []
        for hm in hms:
            for e in hm:
                ctx.check(set(e) <= set(point), "constants: only its own factor")
            vals.append(value(hm, point) if all(set(e) <= set(point) for e in hm) else 1)
        ctx.eq(vals[0]*facs[r.key], 1, "constants: at least 1")
        ctx.eq(vals[1]*now*facs[r.key], val, "constants: not below value over factor")
        ctx.eq(vals[2]*val*facs[r.key], now, "constants: not above value times factor")
        seen.add(r.key)
    ctx.check(len(seen) == len(free), "constants: all factors are different")


def KeySetOf(f):
    from gpkit.keydict import KeySet
    return KeySet(f.vks)


def fake(ctx, vals, senss=None):
    return {"freevariables": KeyDict(vals), "variables": KeyDict(vals),
            "sensitivities": {"variables": KeyDict(senss or {})}}


def reported(ctx, relaxed, objs, vals, tag):
    "everything clearly loosened is reported and nothing that was not"
    for o, v in zip(objs, vals):
        hit = any(o is x or (hasattr(o, "key") and getattr(x, "key", None) == o.key)
                  for x in relaxed)
        if ctx.holds(v > 1.01):
            ctx.check(hit, tag+": loosened ones are reported")
        elif ctx.holds(v <= 1.001):
            ctx.check(not hit, tag+": others are not")
    ctx.check(len(relaxed) == len({id(x) for x in relaxed}), tag+": each once")


def h_report_constraints(ctx):
    x, y, z = X("x"), X("y"), X("z")
    v = VectorVariable(2, "v")
    shape = ctx.choice("shape", 4)
    with SignomialsEnabled():
        cons = [[x >= 1, y >= 2, z >= 3],
                {"a": v >= 1, "b": y >= 2},
                [[x >= 1, y == 2*z], {"q": x + y >= z*x + 1}],
                [x >= 1, [v <= 3]]][shape]
    f = ConstraintsRelaxed(cons)
    vals = [ctx.pos("r%d" % i) for i in range(3)]
    for r in vals:
        ctx.assume(r >= 1)
    arr = np.array([None]*3, dtype=object)
    arr[:] = vals
    if ctx.concrete:
        arr = np.array([float(r) for r in vals])
    result = {"freevariables": KeyDict({f.relaxvars.key: arr}), "variables": KeyDict({})}
    with printing(ctx, ints=True) as text:
        if ctx.boolean("via"):
            f.process_result(result)
        else:
            f.check_relaxed(result)
    flat = list(ConstraintSet(cons).flat())
    ctx.check(len(flat) == 3, "three constraints")
    got = [d for _, d in result.get("warnings", {}).get("Relaxed Constraints", [])]
    reported(ctx, got, flat, vals, "report")
    for msg, c in result.get("warnings", {}).get("Relaxed Constraints", []):
        at, = [i for i, o in enumerate(flat) if o is c]
        percent(ctx, text, msg, vals[at], "report")


def percent(ctx, text, msg, factor, tag):
    "the percentage written is that by which the factor exceeds one, within one"
    nums = re.findall(r"(-?\d+)%", msg)
    ctx.check(len(nums) == 1, tag+": one percentage")
    if len(nums) == 1:
        got, whole = text.cut(nums[0])
        want = (factor - 1)*100
        ctx.check(got >= want - (1.001 if whole else 0.001), tag+": by how much")
        ctx.check(got <= want + 1.001, tag+": by how much")


def h_report_equally(ctx):
    x, y = X("x"), X("y")
    f = ConstraintsRelaxedEqually([x >= 1, y >= x])
    r = ctx.pos("r")
    ctx.assume(r >= 1)
    result = fake(ctx, {f.relaxvar.key: r})
    with printing(ctx, ints=True) as text:
        f.process_result(result)
    got = result.get("warnings", {}).get("Relaxed Constraints", [])
    for msg, _ in got:
        percent(ctx, text, msg, r, "report")
    if ctx.holds(r > 1.01):
        ctx.check(len(got) == 1, "report: relaxed")
    elif ctx.holds(r <= 1.001):
        ctx.check(not got, "report: not relaxed")


def h_report_constants(ctx):
    "freed constants are reported with the sensitivities moved back"
    vals = [ctx.pos("v%d" % i) for i in range(3)]
    x = X("x")
    if ctx.boolean("vector"):
        arr = list(vals) if not ctx.concrete else np.array([float(v) for v in vals])
        ks = VectorVariable(3, "k", arr)
        cons = [x >= ks]
    else:
        ks = [X("k%d" % i, v) for i, v in enumerate(vals)]
        cons = [x >= k for k in ks]
    f = ConstantsRelaxed(cons)
    rs = [ctx.pos("r%d" % i) for i in range(3)]
    for r in rs:
        ctx.assume(r >= 1)
    res, senss, other = {}, {}, ctx.real("other")
    for i, (r, fr) in enumerate(zip(f.relaxvars, f.freedvars)):
        j = [k.key for k in ks].index(fr.key)
        res[r.key] = rs[j]
        res[fr.key] = vals[j]*rs[j]
    sens = [ctx.real("s%d" % i) for i in range(3)]
    for new, old in f._derelax_map.items():
        senss[new] = sens[[k.key for k in ks].index(old)]
    senss[x.key] = other
    result = fake(ctx, res, senss)
    with printing(ctx) as text:
        f.process_result(result)
    for msg, k in result.get("warnings", {}).get("Relaxed Constants", []):
        j = [o.key for o in ks].index(k.key)
        nums = re.search(r"from (\S+) +to (\S+)", msg)
        ctx.check(nums and msg.strip().startswith(str(k.key)), "constants: named in the report")
        if nums:
            for txt, v in zip(nums.groups(), (vals[j], vals[j]*rs[j])):
                got = text.number(txt)
                ctx.check(got >= v*0.999, "constants: from and to which values")
                ctx.check(got <= v*1.001, "constants: from and to which values")
    got = result["sensitivities"]["variables"]
    for k, s in zip(ks, sens):
        ctx.check(k.key in got, "constants: sensitivities come back")
        ctx.eq(got[k.key], s, "constants: sensitivities come back")
    ctx.eq(got[x.key], other, "constants: other sensitivities stay")
    for new in f._derelax_map:
        ctx.check(new not in got, "constants: stand-ins are gone")
    rep = [d for _, d in result.get("warnings", {}).get("Relaxed Constants", [])]
    reported(ctx, rep, [k for k in ks], rs, "constants")


def h_threshold(ctx):
    "the reported list is the most relaxed ones, in order, cut once"
    vals = [ctx.pos("r%d" % i) for i in range(4)]
    for r in vals:
        ctx.assume(r >= 1)
    names = list(range(4))
    out = get_relaxed(vals, names)
    ctx.check(len({i for _, i in out}) == len(out), "threshold: each once")
    for v, i in out:
        ctx.eq(v, vals[i], "threshold: with its own value")
    last = None
    for v, i in out:
        if last is not None:
            ctx.check(last >= v, "threshold: most relaxed first")
        last = v
    for i in names:
        if i not in [j for _, j in out]:
            ctx.check(vals[i] <= 1.01, "threshold: none missed")
            if last is not None:
                ctx.check(vals[i] <= last, "threshold: only the least are left out")


def h_debug(ctx):
    "Model.debug: what it solves, returns and says"
    x, y = X("x"), X("y")
    kind = ctx.choice("kind", 4)
    signomial = kind == 3
    va, vb, vc = (5.0, 2.0, 3.0) if signomial else (ctx.pos("a"), ctx.pos("b"), ctx.pos("c"))
    a, b = X("a", va), X("b", vb)
    with SignomialsEnabled():
        cons = [[x >= vc, y >= vc*x], [x >= a, y >= 2*x], [x >= a, [y >= b*x]],
                [x >= a - y, {"y": y <= vc}]][kind]
    m = Model(x*y**2, cons)
    fixed = [[], [a], [a, b], [a]][kind]
    subs, cost = dict(m.substitutions), m.cost
    flat = list(m.flat())
    outcome = ctx.choice("outcome", 3)      # how many are infeasible
    verbosity = ctx.choice("verbosity", 2)
    near = ctx.choice("near", 2)
    ctx.assume(outcome == 0 or not near)
    ctx.assume(verbosity == 1 or kind in (0, 3) and not near)
    made, calls = [], []
    gen = GeometricProgram.gen

    def newgen(self):
        made.append(self)
        return gen(self)

    def solver(**_):
        gp = made[-1]
        stage = 1 if any(vk.name == "C" for vk in gp.varlocs) else 0
        calls.append((stage, gp))
        if stage < outcome:
            raise gpkit.exceptions.Infeasible()
        point = {}
        for vk in gp.varlocs:
            idx = "".join(map(str, vk.idx or ()))
            relax = vk.lineage and vk.lineage[-1][0] == "Relax"
            if relax and (signomial or any(v.lineage and v.lineage[-1][0] == "Relax" for v in point)):
                point[vk] = [1.0, 1.5][ctx.choice("up%s%s" % (vk.name, idx), 2)]
            elif signomial:     # approximations are decided under S01
                point[vk] = 2.0
            elif relax:         # several at once are decided above
                point[vk] = ctx.pos("r%s%s" % (vk.name, idx))
                ctx.assume(point[vk] >= 1)
            else:
                point[vk] = ctx.pos("v%s%s" % (vk.name, idx))
        calls[-1] += (point,)
        nu = [1.0]+[0.0]*(len(gp.cs)-1)
        return {"objective": 1.0, "soltime": 0.0, "solver": "fn", "nu": arr(ctx, nu),
                "primal": np.log(list(point.values())) if signomial else
                          arr(ctx, [ctx.log(v) for v in point.values()])}

    def boundaries(self, result):   # decided under C05
        if near:
            appendsolwarning("y is near", {}, result, "Arbitrarily Bounded Variables")
    out, check = io.StringIO(), Bounded.check_boundaries
    try:
        GeometricProgram.gen, Bounded.check_boundaries = newgen, boundaries
        with unchecked(), printing(ctx, ints=True) as text, contextlib.redirect_stdout(out):
            sol = m.debug(solver, verbosity=verbosity)
    finally:
        GeometricProgram.gen, Bounded.check_boundaries = gen, check
    out = out.getvalue()
    ctx.check(m.cost is cost and set(m.substitutions) == set(subs), "debug: the model is left as it was")
    for k, v in subs.items():
        ctx.eq(m.substitutions[k], v, "debug: the model is left as it was")
    stages = {stage: gp for stage, gp, *_ in calls}
    ctx.check(set(stages) == ({0, 1} if outcome else {0}), "debug: constraints are relaxed if need be")
    for stage, gp in stages.items():
        relax = {vk for vk in gp.varlocs if vk.lineage and vk.lineage[-1][0] == "Relax"}
        ctx.check(len(relax) == (len(flat) if stage else len(fixed)), "debug: each has a factor")
        (exp, coeff), = gp.hmaps[0].items()
        ctx.check({vk: e for vk, e in exp.items() if vk in relax} == dict.fromkeys(relax, 30) and
                  {vk: e for vk, e in exp.items() if vk not in relax} == {x.key: 1, y.key: 2},
                  "debug: relaxing costs more than anything")
        ctx.eq(coeff, 1, "debug: relaxing costs more than anything")
        for k in fixed:
            ctx.check((k.key in gp.substitutions) == bool(stage), "debug: constants are relaxed first")
            if stage:
                ctx.eq(gp.substitutions[k.key], subs[k.key], "debug: or kept")
    if outcome == 2:
        ctx.check(sol is None, "debug: no solution")
        ctx.check("with these modifications" not in out and "without modification" not in out,
                  "debug: no solution")
        return
    ctx.check(sol is not None, "debug: the relaxed solution")
    point = calls[-1][2]
    for vk, v in point.items():
        ctx.eq(sol["variables"][vk], v, "debug: the relaxed solution")
    warnings = sol["warnings"] if "warnings" in sol else {}
    warnings = {k: v for k, v in warnings.items() if v}
    if outcome:
        vals = [point[vk] for vk in sorted((vk for vk in point if vk.name == "C"), key=lambda vk: vk.idx)]
        reported(ctx, [c for _, c in warnings.get("Relaxed Constraints", [])], flat, vals, "debug")
        ctx.check(set(warnings) <= {"Relaxed Constraints"}, "debug: nothing else")
    else:
        vals = [point[vk] for k in fixed for vk in point if vk.name == k.key.name and vk != k.key]
        reported(ctx, [c for _, c in warnings.get("Relaxed Constants", [])], fixed, vals, "debug")
        ctx.check(set(warnings) <= {"Relaxed Constants", "Arbitrarily Bounded Variables"}, "debug: nothing else")
        msgs = [msg for msg, _ in warnings.get("Arbitrarily Bounded Variables", [])]
        ctx.check(msgs == ["y is near"]*near, "debug: the bounds reached")
    if not verbosity:
        ctx.check(out == "", "debug: quiet")
        return
    ctx.check(("with relaxed constants and bounded variables" in out) == bool(outcome), "debug: says what failed")
    ctx.check(("is feasible with these modifications" in out) == bool(warnings), "debug: says what it took")
    ctx.check(("feasible without modification" in out) == (not warnings), "debug: says what it took")
    for title, msgs in warnings.items():
        ctx.check(title in out, "debug: says what it took")
        for msg, _ in msgs:
            ctx.check(msg in out, "debug: says what it took")


HARNESSES = [
    Harness("constraints", h_constraints, "2 constraints of 6 kinds in 5 nestings, both relaxations, any "
            "point and factors", max_paths=20000),
    Harness("exact", h_exact, "2 constraints of 4 kinds, all factors 1"),
    Harness("constants", h_constants, "1-5 constants: scalar with units, vector (whole or one element), "
            "3 kinds of link, zero; include_only, exclude"),
    Harness("report_constraints", h_report_constraints, "3 constraints in 4 nestings, any factors"),
    Harness("report_equally", h_report_equally, "any factor"),
    Harness("report_constants", h_report_constants, "3 constants, scalar or vector, any factors and "
            "sensitivities"),
    Harness("threshold", h_threshold, "4 factors"),
    Harness("debug", h_debug, "Model.debug of 4 models with 0 to 2 constants, one of them signomial (and of numbers), with arbitrary "
            "answers, where the first, both or none of the relaxed models is infeasible", max_paths=14000),
]
