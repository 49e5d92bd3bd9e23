"Solution containers keep every value in its place"
import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile
import types
import numpy as np
import gpkit
import gpkit.solution_array as samod
import gpkit.constraints.gp as gpmod
from symex.poly import Sym
from symex.shim import fround
from .gplib import *
from gpkit import Model, NamedVariables
from gpkit.keydict import KeyDict
from gpkit.small_classes import DictOfLists
from gpkit.nomials import NomialArray
from gpkit.solution_array import SolutionArray

NOTE = ("every number held by the solutions is symbolic; files are written and read for real, in a scratch directory "
        "(a symbolic number pickles as a reference to itself).")


class Boom(Exception):
    "raised by the harness"


def isblank(v):
    "nan, or an empty list"
    return isinstance(v, list) and not v or not isinstance(v, list) and v != v


def nums(ctx, name, n):
    return arr(ctx, [ctx.pos("%s_%d" % (name, i)) for i in range(n)])


def h_lists(ctx):
    "nested dictionaries, in which some keys are only in some solutions"
    n = 1 + ctx.choice("n", 3)
    sols = []
    for t in range(n):
        sol = {"cost": ctx.pos("cost%d" % t),
               "sub": {"x": ctx.pos("x%d" % t), "v": nums(ctx, "v%d" % t, 2), "deep": {"y": ctx.pos("y%d" % t)}},
               "text": "status%d" % t}
        if ctx.boolean("some%d" % t):
            sol["z"] = ctx.pos("z%d" % t)
            sol["sub"]["w"] = nums(ctx, "w%d" % t, 2)
        if ctx.boolean("list%d" % t):
            sol["lists"] = [("a", ctx.pos("l%d_%d" % (t, i))) for i in range(1+ctx.choice("len%d" % t, 2))]
            sol["more"] = {"u": ctx.pos("u%d" % t)}
        sols.append(sol)
    held = DictOfLists()
    for sol in sols:
        held.append(sol)
    held.to_arrays()
    ctx.check(isinstance(held, DictOfLists), "lists: type")

    def paths(d, pre=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from paths(v, pre+(k,))
            else:
                yield pre+(k,)

    def at(d, path):
        for k in path:
            if not isinstance(d, dict) or k not in d:
                return None
            d = d[k]
        return d
    every = set()
    for sol in sols:
        every.update(paths(sol))
    ctx.check(set(paths(held)) == every, "lists: every key, and no others")

    def equal(got, want, tag):
        if want is None:
            ctx.check(np.all(isblank(got) if not hasattr(got, "shape") else
                             [isblank(g) for g in np.array(got, dtype=object).flatten()]), tag+": blank where absent")
        elif isinstance(want, str):
            ctx.check(got == want, tag+": text")
        elif isinstance(want, list):
            ctx.check(len(got) == len(want), tag+": list's length")
            for g, w in zip(got, want):
                ctx.check(g[0] == w[0], tag+": list's items")
                ctx.eq(g[1], w[1], tag+": list's items")
        elif hasattr(want, "shape"):
            ctx.check(np.shape(got) == want.shape, tag+": shape")
            for g, w in zip(np.array(got, dtype=object).flat, want.flat):
                ctx.eq(g, w, tag+": vector's element")
        else:
            ctx.eq(got, want, tag+": number")
    for path in every:
        col = at(held, path)
        ctx.check(n == 1 or len(col) == n, "lists: as long as there are solutions")
        for t, sol in enumerate(sols):
            equal(col if n == 1 else col[t], at(sol, path), "lists")
    if n > 1:
        for t, sol in enumerate(sols):
            one = held.atindex(t)
            ctx.check(set(paths(one)) == every, "atindex: every key")
            for path in every:
                equal(at(one, path), at(sol, path), "atindex")


def result(ctx, t, keys, cons=()):
    "a solution's data, in the form programs give it"
    x, y, v, c, k = keys
    xv, yv, cv = ctx.pos("x%d" % t), ctx.pos("y%d" % t), ctx.pos("c%d" % t)
    vv, kv = nums(ctx, "v%d" % t, 2), nums(ctx, "k%d" % t, 2)
    sx, sc, sv = ctx.real("sx%d" % t), ctx.real("sc%d" % t), ctx.real("sv%d" % t)
    free, const = KeyDict(), KeyDict()
    free.update({x: xv, y: yv})
    free[v.key] = vv
    const.update({c: cv})
    const[k.key] = kv
    allv = KeyDict(free)
    allv.update(const)
    senss = KeyDict({x: sx, y: 0*sx, c: sc})
    senss[v.key] = arr(ctx, [sv, 0*sv])
    senss[k.key] = arr(ctx, [-sv, sc])
    cost = ctx.pos("cost%d" % t)
    res = {"cost": cost, "cost function": x, "freevariables": free, "constants": const, "variables": allv,
           "sensitivities": {"cost": senss, "variables": senss, "constraints": {con: ctx.pos("s%d_%d" % (t, i))
                                                                                for i, con in enumerate(cons)}}}
    return res, dict(x=xv, y=yv, v=vv, c=cv, k=kv, sx=sx, sc=sc, sv=sv, cost=cost)


def keys():
    return (X("x", "m"), X("y", "ft"), VectorVariable(2, "v", "m"), X("c", "1/m"), VectorVariable(2, "k"))


def solutions(ctx, n, ks, cons=()):
    sol, data = SolutionArray(), []
    for t in range(n):
        res, dat = result(ctx, t, ks, cons)
        sol.append(res)
        data.append(dat)
    sol.to_arrays()
    return sol, data


def plain(q):
    "magnitude in SI, dimensions"
    if hasattr(q, "hmap"):
        fac, dims = si(q.units)
        return q.hmap[gpkit.small_classes.HashVector()]*fac, dims
    if hasattr(q, "magnitude"):
        fac, dims = 1.0, {}
        for name, p in dict(q.units._units).items():
            f, d = UNIT_TABLE[name]
            fac = fac*f**p
            for u, e in d.items():
                dims[u] = dims.get(u, 0) + e*p
        return q.magnitude*fac, {u: e for u, e in dims.items() if e}
    return q, {}


def items(got, shape, ctx, tag):
    "the elements of what a lookup gave"
    if shape == ():
        return [((), got)]
    ctx.check(np.shape(got) == shape, tag+": shape")
    if hasattr(got, "magnitude"):
        return [(i, got[i]) for i in np.ndindex(*shape)]
    a = np.array(got, dtype=object)
    return [(i, a[i]) for i in np.ndindex(*shape)]


FT = 0.3048


def h_lookup(ctx):
    "everything that can be asked of a solution"
    n = 1 + ctx.choice("n", 3)
    ks = x, y, v, c, k = keys()
    sol, data = solutions(ctx, n, ks)
    ctx.check(len(sol) == n, "lookup: number of solutions")
    exprs = [
        ("x", x, (), {"L": 1}, lambda d, i: d["x"]),
        ("'x'", "x", (), {"L": 1}, lambda d, i: d["x"]),
        ("y", y, (), {"L": 1}, lambda d, i: d["y"]*FT),
        ("c", c, (), {"L": -1}, lambda d, i: d["c"]),
        ("v", v, (2,), {"L": 1}, lambda d, i: d["v"][i[0]]),
        ("'v'", "v", (2,), {"L": 1}, lambda d, i: d["v"][i[0]]),
        ("v[1]", v[1], (), {"L": 1}, lambda d, i: d["v"][1]),
        ("k", k, (2,), {}, lambda d, i: d["k"][i[0]]),
        ("k[0]", k[0], (), {}, lambda d, i: d["k"][0]),
        ("xy", x*y, (), {"L": 2}, lambda d, i: d["x"]*d["y"]*FT),
        ("x+y", x + y, (), {"L": 1}, lambda d, i: d["x"] + d["y"]*FT),
        ("cx", c*x**2, (), {"L": 1}, lambda d, i: d["c"]*d["x"]**2),
        ("2vk", 2*v*k, (2,), {"L": 1}, lambda d, i: 2*d["v"][i[0]]*d["k"][i[0]]),
        ("v0k1", v[0]/k[1], (), {"L": 1}, lambda d, i: d["v"][0]/d["k"][1]),
        ("sum", v.sum(), (), {"L": 1}, lambda d, i: d["v"][0] + d["v"][1]),
        ("outer", v.outer(k), (2, 2), {"L": 1}, lambda d, i: d["v"][i[0]]*d["k"][i[1]]),
        ("row", NomialArray([[x, 2*y]]), (1, 2), {"L": 1}, lambda d, i: [d["x"], 2*FT*d["y"]][i[1]]),
        ("pair", NomialArray([y, v[1]]), (2,), {"L": 1}, lambda d, i: [FT*d["y"], d["v"][1]][i[0]]),
    ]
    tag, expr, shape, dims, want = exprs[ctx.choice("expr", len(exprs))]
    how = ctx.choice("how", 3)
    if how == 0:
        got = sol(expr)
    elif how == 1:
        got = sol.subinto(expr)
    elif ctx.boolean("neg"):
        got = [sol.atindex(t-n)(expr) for t in range(n)]
    else:
        got = [sol.atindex(t)(expr) for t in range(n)]
    for t in range(n):
        if how == 2:
            part = items(got[t], shape, ctx, "lookup "+tag)
        elif n == 1:
            part = items(got, shape, ctx, "lookup "+tag)
        else:
            part = [(i[1:], g) for i, g in items(got, (n,)+shape, ctx, "lookup "+tag) if i[0] == t]
        ctx.check(len(part) == int(np.prod(shape)), "lookup %s: all elements" % tag)
        for i, g in part:
            val, d = plain(g)
            ctx.check(d == dims, "lookup %s: units" % tag)
            ctx.eq(val, want(data[t], i), "lookup %s: value" % tag)


def h_keys(ctx):
    "looking in the solution's tables by any of a variable's names"
    n = 1 + ctx.choice("n", 2)
    ks = x, y, v, c, k = keys()
    sol, data = solutions(ctx, n, ks)
    where = ["variables", "freevariables", "constants", "sens"][ctx.choice("where", 4)]
    table = sol["sensitivities"]["variables"] if where == "sens" else sol[where]
    for name, key, els in (("x", x, 0), ("y", y, 0), ("c", c, 0), ("v", v, 2), ("k", k, 2)):
        inside = where in ("variables", "sens") or (where == "constants") == (name in "ck")
        names = [key, key.key, name]
        for ref in names:
            ctx.check((ref in table) == inside, "keys: is it there?")
        if not inside:
            continue
        for t, d in enumerate(data):
            want = {"x": d["sx"], "y": 0, "c": d["sc"], "v": arr(ctx, [d["sv"], 0]),
                    "k": arr(ctx, [-d["sv"], d["sc"]])}[name] if where == "sens" else d[name]
            for ref in names:
                got = table[ref] if n == 1 else table[ref][t]
                for i in range(els):
                    ctx.eq(got[i], want[i], "keys: vector")
                if not els:
                    ctx.eq(got, want, "keys: scalar")
            for i in range(els):
                for ref in (key[i], key[i].key):
                    ctx.check(ref in table, "keys: element is there")
                    got = table[ref] if n == 1 else table[ref][t]
                    ctx.eq(got, want[i], "keys: element")
    for t, d in enumerate(data):
        ctx.eq(sol["cost"] if n == 1 else sol["cost"][t], d["cost"], "keys: cost")


@contextlib.contextmanager
def scratch():
    "a directory of our own"
    path, cwd = tempfile.mkdtemp(prefix="d01"), os.getcwd()
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(cwd)
        shutil.rmtree(path)


ATTRS = ["bounded", "meq_bounded", "vks", "v_ss", "unsubbed", "varkeys"]


def h_save(ctx):
    "saving a real model's solution, and loading it"
    a, xv, yv = ctx.pos("a"), ctx.pos("xv"), ctx.pos("yv")
    x, y, k, v = X("x", "m"), X("y"), X("k", a, "m"), VectorVariable(2, "v")
    cons = [x >= k*y, y + 1/y <= v[0], v[0] == 2*v[1]]
    m = Model(x*v[0], cons)
    swept = ctx.boolean("swept")
    if swept:
        b = ctx.pos("b")
        m.substitutions[k] = ("sweep", [a, b])
    vals = {"x": xv, "y": yv, "v[0]": ctx.pos("v0"), "v[1]": ctx.pos("v1")}
    count, nu = [], ctx.pos("nu")

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        count.append(1)
        prog = m.program[-1] if swept else m.program
        primal = arr(ctx, [ctx.log(vals[str(vk)]) for vk in prog.varlocs])
        return dict(objective=xv*len(count), primal=primal,
                    nu=arr(ctx, [nu*((i+1)*len(count)/8.) for i in range(len(c))]))
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sol = m.solve(solver, verbosity=0)
    finally:
        gpmod.GeometricProgram.check_solution = real
    withcons = ctx.boolean("constraints")
    compressed = ctx.boolean("compressed")
    fails = ctx.boolean("fails")

    def snapshot():
        return {id(con): {at: vars(con).get(at) for at in ATTRS} for con in sol["sensitivities"]["constraints"]}
    before, senss = snapshot(), dict(sol["sensitivities"]["constraints"])
    keyed = set(sol["sensitivities"])
    with scratch():
        target = "sol.pgz" if compressed else "sol.pkl"
        save = sol.save_compressed if compressed else sol.save
        if fails:
            sol["unpicklable"] = lambda: None
        try:
            save(target, saveconstraints=withcons)
            ctx.check(not fails, "save: an unpicklable solution")
        except (pickle.PicklingError, AttributeError, TypeError):
            ctx.check(fails, "save: fails")
        loaded = None
        if not fails:
            if compressed:
                loaded = SolutionArray.decompress_file(target)
            else:
                with open(target, "rb") as f:
                    loaded = pickle.load(f)
    ctx.check(set(sol["sensitivities"]) == keyed, "save: leaves the same entries")
    after = sol["sensitivities"]["constraints"]
    ctx.check(len(after) == len(senss) and all(con in after for con in senss), "save: leaves the constraints")
    for con, s in senss.items():
        now, was = np.array(after[con]).flatten(), np.array(s).flatten()
        for g, w in zip(now, was):
            ctx.eq(g, w, "save: leaves the constraints' sensitivities")
    now = snapshot()
    for i, attrs in before.items():
        for at, val in attrs.items():
            ctx.check(now[i][at] is val, "save: leaves the constraints usable")
    if loaded is None:
        return
    ctx.check(len(loaded) == len(sol), "load: number of solutions")
    ctx.check(set(loaded["variables"]) == set(sol["variables"]), "load: variables")
    ctx.check(("constraints" in loaded["sensitivities"]) == withcons, "load: constraints when asked for")
    for part in ("variables", "freevariables", "constants", "sweepvariables", "sens"):
        if part not in sol and part != "sens":
            ctx.check(part not in loaded, "load: parts")
            continue
        one = sol["sensitivities"]["variables"] if part == "sens" else sol[part]
        two = loaded["sensitivities"]["variables"] if part == "sens" else loaded[part]
        ctx.check(set(one) == set(two), "load: keys of each part")
        for key in one:
            g, w = np.array(two[key], dtype=object), np.array(one[key], dtype=object)
            ctx.check(g.shape == w.shape, "load: shapes")
            for gi, wi in zip(g.flat, w.flat):
                ctx.eq(gi, wi, "load: values")
    for g, w in zip(np.array(loaded["cost"], dtype=object).flatten(), np.array(sol["cost"], dtype=object).flatten()):
        ctx.eq(g, w, "load: cost")
    for expr in (x, "x", v, v[1], x*y, k):
        g, w = loaded(expr), sol(expr)
        g = np.array([plain(e)[0] for e in (np.array(g, dtype=object).flatten() if not hasattr(g, "magnitude")
                                            else [g])], dtype=object)
        w = np.array([plain(e)[0] for e in (np.array(w, dtype=object).flatten() if not hasattr(w, "magnitude")
                                            else [w])], dtype=object)
        for gi, wi in zip(g.flat, w.flat):
            for gj, wj in zip(np.array(gi, dtype=object).flatten(), np.array(wi, dtype=object).flatten()):
                ctx.eq(gj, wj, "load: lookups")
    if withcons:
        old = sol["sensitivities"]["constraints"]
        new = loaded["sensitivities"]["constraints"]
        ctx.check(len(new) == len(old), "load: as many constraints")
        for (c1, s1), (c2, s2) in zip(old.items(), new.items()):
            ctx.check(type(c1) is type(c2), "load: kind of constraint")
            for g, w in zip(np.array(s2, dtype=object).flatten(), np.array(s1, dtype=object).flatten()):
                ctx.eq(g, w, "load: constraint sensitivities")
            if hasattr(c1, "left"):
                ctx.check(c1.oper == c2.oper, "load: constraints' sense")
                for side in ("left", "right"):
                    h1, h2 = getattr(c1, side).hmap, getattr(c2, side).hmap
                    ctx.check(len(h1) == len(h2), "load: constraints' sides")
                    for (e1, k1), (e2, k2) in zip(h1.items(), h2.items()):
                        ctx.check(dict(e1) == dict(e2), "load: constraints' sides")
                        ctx.eq(k1, k2, "load: constraints' sides")


@contextlib.contextmanager
def modules(**mods):
    "stand-ins for modules"
    old = {name: sys.modules.get(name) for name in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for name, mod in old.items():
            if mod is None:
                del sys.modules[name]
            else:
                sys.modules[name] = mod


def swept_model(ctx, n, falling=False):
    """a model with same-named variables and every kind of value, solved at n points

    Returns its solution and {variable: (kind, shape, unit, [values at each point])}"""
    with NamedVariables("A"):
        xa, z = X("x", "m"), X("z", "ft", "its label")
        va = VectorVariable(2, "v", "ft")
        with NamedVariables("S"):
            xs = X("x", "m")
    with NamedVariables("B"):
        xb, vb = X("x", "m"), VectorVariable(2, "v", "m")
    w = VectorVariable(2, "w", "1/m")
    M = VectorVariable((1, 2), "M")
    k, h = X("k", "m"), X("h", "ft")
    wv, hv = [ctx.pos("w0"), ctx.pos("w1")], ctx.pos("h")
    ks = [ctx.pos("k%d" % i) for i in range(n)]
    cons = [xa >= k, xs >= h, xb >= k/(k*w[0]), z >= xa, va >= z, vb >= va, M >= 1/(xa*w[1])]
    cost = xa*xs*xb*z*va.prod()*vb.prod()*M[0, 0]*M[0, 1]
    m = Model(cost, cons)
    m.substitutions.update({w: arr(ctx, wv), h: hv, k: ks[0]})
    if n > 1:
        for a, b in zip(ks, ks[1:]):
            ctx.assume(b < a if falling else b > a)
        m.substitutions[k] = ("sweep", list(ks))
    table = {xa: ("free", ()), xs: ("free", ()), xb: ("free", ()), z: ("free", ()), va: ("free", (2,)),
             vb: ("free", (2,)), M: ("free", (1, 2)), w: ("const", (2,)), h: ("const", ()),
             k: ("swept" if n > 1 else "const", ())}
    want = {}
    for j, (var, (kind, shape)) in enumerate(table.items()):
        if var is w:
            vals = [arr(ctx, wv)]*n
        elif var is h:
            vals = [hv]*n
        elif var is k:
            vals = ks
        else:
            vals = []
            for t in range(n):
                new = arr(ctx, [ctx.pos("f%d_%d_%d" % (j, t, i)) for i in range(int(np.prod(shape)))]).reshape(shape)
                vals.append(new if shape else new[()])
        want[var.key] = (kind, shape, vals)
    count = []

    def solver(*, c, A, k, p_idxs, meq_idxs, **_):
        prog = m.program[-1] if n > 1 else m.program
        t = len(count)
        count.append(1)
        primal = []
        for vk in prog.varlocs:
            val = want[vk.veckey or vk][2][t]
            primal.append(ctx.log(val[vk.idx] if vk.veckey else val))
        return dict(objective=ctx.pos("obj%d" % t), primal=arr(ctx, primal),
                    nu=arr(ctx, [(i+1)*ctx.pos("nu%d" % t) for i in range(len(c))]))
    real = gpmod.GeometricProgram.check_solution
    gpmod.GeometricProgram.check_solution = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sol = m.solve(solver, verbosity=0)
    finally:
        gpmod.GeometricProgram.check_solution = real
    return sol, want


NAMES = {"A.x": "A.x", "A.S.x": "A.S.x", "B.x": "B.x", "A.z": "z", "A.v": "A.v", "B.v": "B.v", "M": "M", "w": "w",
         "h": "h", "k": "k"}


def fullname(key):
    return ".".join([name for name, _ in key.lineage or ()] + [key.name])


def close(ctx, got, want, tag):
    "equal up to rounding to single precision"
    if not ctx.concrete:
        new, old = Sym.coerce(got), Sym.coerce(fround(want))
        if type(new) is type(old) is Sym and new.key() == old.key():
            return
    ctx.eq(got, want, tag)


def h_index(ctx):
    "each point of a real sweep"
    n = 1 + ctx.choice("n", 3)
    sol, want = swept_model(ctx, n)
    ctx.check(len(sol) == n, "index: number of points")
    i = ctx.choice("i", 2*n)
    one, t = sol.atindex(i-n), i % n
    ctx.check(len(one) == 1, "index: one point")
    parts = {"variables": ("free", "const", "swept"), "freevariables": ("free",), "constants": ("const", "swept"),
             "sweepvariables": ("swept",)}
    for part, kinds in parts.items():
        if part == "sweepvariables" and n == 1:
            ctx.check(not one.get(part), "index: nothing was swept")
            continue
        held = {key: v for key, v in want.items() if v[0] in kinds}
        if part == "constants" and n > 1:   # of the sweep, which are elsewhere
            ctx.check({k for k in one[part]}.issubset(held), "index: constants")
            held = {key: v for key, v in held.items() if key in one[part]}
            ctx.check(len(held) >= 2, "index: constants")
        ctx.check(set(one[part]) == set(held), "index: variables of each part")
        for key, (_, shape, vals) in held.items():
            ctx.check(np.shape(one[part][key]) == shape, "index: shapes")
            for idx in np.ndindex(*shape):
                ctx.eq(one[part][key][idx] if shape else one[part][key], vals[t][idx] if shape else vals[t],
                       "index: values")
    for key, (_, shape, vals) in want.items():
        ctx.check(np.shape(one["sensitivities"]["variables"][key]) == shape, "index: sensitivities' shapes")
        whole = sol["sensitivities"]["variables"][key]
        for idx in np.ndindex(*shape):
            a, b = one["sensitivities"]["variables"][key], whole if n == 1 else whole[t]
            ctx.eq(a[idx] if shape else a, b[idx] if shape else b, "index: sensitivities")
    ctx.eq(one["cost"], sol["cost"] if n == 1 else sol["cost"][t], "index: cost")


def h_export(ctx):
    "a solution's variables in other programs' formats"
    n = 1 + ctx.choice("n", 2)
    sol, want = swept_model(ctx, n)
    chosen = ctx.choice("show", 5)
    by = {fullname(key): key for key in want}
    show = [None, ["x"], [by["A.x"], "M"], ["A.v", by["z" if "z" in by else "A.z"], "k"], [by["B.v"]]][chosen]
    shown = [set(by), {"A.x", "A.S.x", "B.x"}, {"A.x", "M"}, {"A.v", "A.z", "k"}, {"B.v"}][chosen]

    def value(name):
        vals = want[by[name]][2]
        return vals[0] if n == 1 else np.array([np.array(v, dtype=object) for v in vals], dtype=object)
    if ctx.boolean("mat"):
        import scipy.io
        real, got = scipy.io.savemat, []
        scipy.io.savemat = lambda *a, **k: got.append((a, k))
        try:
            sol.savemat("file.mat", showvars=show)
        finally:
            scipy.io.savemat = real
        ctx.check(len(got) == 1, "mat: written once")
        name, data = got[0][0]
        ctx.check(name == "file.mat" and not got[0][1], "mat: to the file asked for")
        ctx.check(set(data) == {NAMES[f].replace(".", "_") for f in shown}, "mat: names")
        for f in shown:
            new = np.array(data[NAMES[f].replace(".", "_")], dtype=object)
            old = np.array(value(f), dtype=object)
            held = [old.shape]
            if want[by[f]][0] == "const" and n > 1:
                held.append(np.shape(want[by[f]][2][0]))    # the same at each point
                if new.shape == held[-1]:
                    old = np.array(want[by[f]][2][0], dtype=object)
            ctx.check(new.shape in held, "mat: shapes")
            for g, w in zip(new.flat, old.flat):
                close(ctx, g, w, "mat: values")
    else:
        pandas, frames = types.ModuleType("pandas"), []
        pandas.DataFrame = lambda rows, columns: frames.append((rows, columns)) or frames
        with modules(pandas=pandas):
            ctx.check(sol.todataframe(showvars=show) is frames, "frame: returned")
        (rows, cols), = frames
        ctx.check(cols[:6] == ["Name", "Index", "Value", "Units", "Label", "Lineage"], "frame: columns")
        seen = {}
        for row in rows:
            ctx.check(len(row) == len(cols), "frame: rows as long as the header")
            name, idx, val, unit, label, lineage = row[:6]
            f = ".".join([l for l, _ in lineage or ()] + [name])
            ctx.check(f in shown, "frame: variables asked for")
            key = by[f]
            ctx.check(label == (key.descr.get("label") or ""), "frame: label")
            ctx.check(unit == key.unitstr(), "frame: units")
            ctx.check((f, idx) not in seen, "frame: each index once")
            seen[f, idx] = val
        for f in shown:
            shape, old = want[by[f]][1], value(f)
            if not shape:
                got = np.array(seen.pop((f, "")), dtype=object)
                ctx.check(got.shape in (np.shape(old), ()), "frame: shape")
                for g, w in zip(got.flat, np.array(old, dtype=object).flat):
                    ctx.eq(g, w, "frame: values")
                continue
            if (f, (0,)*np.ndim(old) if np.ndim(old) > 1 else 0) not in seen:
                old = np.array(want[by[f]][2][0], dtype=object)     # the same at each point
                ctx.check(want[by[f]][0] == "const", "frame: one point of what changes")
            for idx in np.ndindex(*np.shape(old)):
                where = idx if len(idx) > 1 else idx[0]
                ctx.check((f, where) in seen, "frame: every element")
                ctx.eq(seen.pop((f, where)), old[idx], "frame: elements' values")
        ctx.check(not seen, "frame: nothing else")
    for key in list(sol["variables"].keymap):
        ctx.check(not getattr(key, "key", None) or "necessarylineage" not in key.descr, "export: names as before")


def h_equal(ctx):
    "almost_equal is exactly the comparison it documents"
    n = 1 + ctx.choice("n", 2)
    n2 = 1 + ctx.choice("n2", 2)
    x, v = X("x", "m"), VectorVariable(2, "v")
    tols = ctx.pos("reltol"), ctx.pos("senstol")
    may = [("x",), ("v0",), ("v1",), ("sx",), ("s0",), ("s1",), ("v0", "v1"), ("s0", "s1"), ("x", "sx")]
    may = may[ctx.choice("may", len(may))]  # which may differ at all
    if len(may) > 1:
        ctx.assume(n+n2 < 4)

    def make(which):
        sol, data = SolutionArray(), []
        for t in range(n2 if which else n):
            def num(name):
                if which and name not in may:
                    return same[min(t, n-1)][name]
                if not which and t and n2 == 1 and name not in may:
                    return data[0][name]
                return (ctx.real if name[0] == "s" else ctx.pos)("%s%d_%d" % (name, which, t))
            d = {name: num(name) for name in ("x", "v0", "v1", "sx", "s0", "s1")}
            var, sens = KeyDict({x: d["x"]}), KeyDict({x: d["sx"]})
            var[v.key], sens[v.key] = arr(ctx, [d["v0"], d["v1"]]), arr(ctx, [d["s0"], d["s1"]])
            sol.append({"cost": d["x"], "variables": var, "sensitivities": {"variables": sens}})
            data.append(d)
        sol.to_arrays()
        return sol, data
    one, same = make(0)
    two, other = make(1)
    got = one.almost_equal(two, reltol=tols[0], sens_abstol=tols[1])
    if n != n2:
        # a single solution next to a sweep is compared with each of its points
        a, b = (same*len(other), other) if n == 1 else (same, other*len(same))
    else:
        a, b = same, other
    within = []
    for d, e in zip(a, b):
        for name in ("x", "v0", "v1"):
            within += [d[name] - e[name] < tols[0]*e[name], e[name] - d[name] < tols[0]*e[name]]
        for name in ("sx", "s0", "s1"):
            within += [d[name] - e[name] < tols[1], e[name] - d[name] < tols[1]]
    if got:
        for cond in within:
            ctx.check(cond, "equal: everything is within tolerance")
    else:
        ctx.refute(within, "equal: something is out of tolerance")


def h_differ(ctx):
    "solutions of different variables, or different numbers of points, are not equal"
    x, y = X("x", "m"), X("y")
    c = ctx.pos("c")

    def make(keys_, n):
        sol = SolutionArray()
        for _ in range(n):
            sol.append({"cost": c, "variables": KeyDict({k: c for k in keys_}),
                        "sensitivities": {"variables": KeyDict({k: c for k in keys_})}})
        sol.to_arrays()
        return sol
    sets = [[x], [y], [x, y]]
    i, j = ctx.choice("i", 3), ctx.choice("j", 3)
    n, p = 1+ctx.choice("n", 3), 1+ctx.choice("p", 3)
    a, b = make(sets[i], n), make(sets[j], p)
    want = i == j and (n == p or 1 in (n, p))
    ctx.check(bool(a.almost_equal(b)) == want, "differ: variables and points must match")


HARNESSES = [
    Harness("lists", h_lists, "1-3 solutions, nested dictionaries, keys missing from any of them"),
    Harness("lookup", h_lookup, "1-3 solutions, 18 expressions, 3 ways of asking"),
    Harness("keys", h_keys, "1-2 solutions, every name of every variable"),
    Harness("save", h_save, "solutions of 1-2 points, with or without constraints, compressed or not, failing or not"),
    Harness("index", h_index, "a sweep of 1-3 points: free, constant and swept scalars, vectors and a matrix, each "
            "point counted from either end"),
    Harness("export", h_export, "1-2 points, ten variables some of which share names; all of them or 4 subsets; "
            "savemat's and todataframe's data"),
    Harness("equal", h_equal, "1-2 points each, any values and tolerances", max_paths=8000),
    Harness("differ", h_differ, "1-3 points, 3 sets of variables"),
]
