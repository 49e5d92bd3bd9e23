"Variable-keyed dictionaries resolve every alias to one value"
import numpy as np
from .lib import *
from gpkit.keydict import KeyDict, KeySet

N = 3


class World:
    "variables, and a reference store  element-key -> number"
    def __init__(self):
        self.v = VectorVariable(N, "v")
        self.a = X("a")
        self.b = X("b", lineage=(("Sub", 0),))
        self.a2 = X("a", lineage=(("Sub", 0),))     # same name, other model
        self.w = VectorVariable((2, 2), "w", "m")

    def elems(self):
        return list(self.v) + [self.a, self.b, self.a2]


def val(ctx, name):
    "numbers that no short float holds exactly"
    return ctx.pos(name)/3


def exact(ctx, got, want, label):
    if ctx.concrete:
        ctx.check(float(got) == float(want), label)
    else:
        ctx.eq(got, want, label)


def vec(ctx, vals):
    if ctx.concrete:
        return np.array([float(x) for x in vals])
    out = np.empty(len(vals), dtype=object)
    out[:] = vals
    return out


def compare(ctx, kd, ref, w, tag):
    "every alias of every variable agrees with the reference"
    for el in w.elems():
        k = el.key
        for alias in (el, k):
            ctx.check((alias in kd) == (k in ref), tag+": membership")
            if k in ref:
                exact(ctx, kd[alias], ref[k], tag+": value under the variable and its key")
                exact(ctx, kd.get(alias, None), ref[k], tag+": get")
            else:
                ctx.check(kd.get(alias, "absent") == "absent", tag+": get of an absent key")
    have = [el.key for el in w.v if el.key in ref]
    for alias in (w.v, w.v.key, "v"):
        if have or alias is not w.v:
            ctx.check((alias in kd) == bool(have), tag+": vector membership")
        if have:
            arr = kd[alias]
            ctx.check(np.shape(arr) == (N,), tag+": whole vector")
            for i, el in enumerate(w.v):
                if el.key in ref:
                    exact(ctx, arr[i], ref[el.key], tag+": value under the whole vector")
                else:
                    ctx.check(not type(arr[i]) is Sym and np.isnan(float(arr[i])),
                              tag+": unset elements are nan")
    if not have:
        try:
            kd["v"]
            ctx.check(False, tag+": absent name raises")
        except KeyError:
            ctx.check(True, tag+": absent name raises")
    for name, keys in (("b", [w.b]), ("a", [w.a, w.a2]), ("Sub.b", [w.b]), ("Sub.a", [w.a2])):
        keys = [k.key for k in keys if k.key in ref]
        ctx.check((name in kd) == bool(keys), tag+": name membership")
        if len(keys) == 1:
            exact(ctx, kd[name], ref[keys[0]], tag+": value under an unambiguous name")
        elif keys:
            got = kd[name]
            ctx.check(isinstance(got, dict) and set(got) == set(keys), tag+": ambiguous name")
            for k in keys:
                exact(ctx, got[k], ref[k], tag+": ambiguous name values")
    ctx.check(set(kd) == {k.veckey or k for k in ref}, tag+": exactly the stored keys")
    ctx.check(len(kd) == len({k.veckey or k for k in ref}), tag+": length")
    ctx.check("nonsense" not in kd, tag+": unknown name")


NOPS = 13


def apply(ctx, op, n, kd, ref, w):
    "one operation on the real dict and on the reference"
    v = w.v
    x, y = val(ctx, "x%d" % n), val(ctx, "y%d" % n)
    if op in (0, 1):
        kd[v[op*2]] = x
        ref[v[op*2].key] = x
    elif op == 2:
        arr = vec(ctx, [x, y, x+y])
        kd[v] = arr
        for el, q in zip(v, (x, y, x+y)):
            ref[el.key] = q
    elif op == 3:
        kd["key" and v.key] = [1, 2, 3]
        for el, q in zip(v, (1, 2, 3)):
            ref[el.key] = q
    elif op == 4:
        kd[v] = x
        for el in v:
            ref[el.key] = x
    elif op == 5:
        kd[w.a] = x
        kd[w.a2.key] = y
        ref[w.a.key], ref[w.a2.key] = x, y
    elif op == 6:
        kd.update({w.b: x, v[1]: y})
        ref[w.b.key], ref[v[1].key] = x, y
    elif op in (7, 8, 9):
        k = (v[1], w.a, v)[op-7]
        keys = [el.key for el in v] if op == 9 else [k.key]
        if any(q in ref for q in keys):
            del kd[k]
            for q in keys:
                ref.pop(q, None)
        elif op != 7 or not any(el.key in ref for el in v):
            try:
                del kd[k]
                ctx.check(False, "deleting an absent key raises")
            except KeyError:
                ctx.check(True, "deleting an absent key raises")
    elif op == 10:
        keys = [k.key for k in (w.a, w.a2) if k.key in ref]
        if keys:
            del kd["a"]
            for k in keys:
                del ref[k]
        else:
            try:
                del kd["a"]
                ctx.check(False, "deleting an absent name raises")
            except KeyError:
                ctx.check(True, "deleting an absent name raises")
    elif op == 11:
        kd[v] = vec(ctx, [x, float("nan"), y])
        ref[v[0].key], ref[v[2].key] = x, y
    else:
        kd[v] = np.array([4, 5, 6])
        for el, q in zip(v, (4, 5, 6)):
            ref[el.key] = q


def sequence(length, nops):
    def fn(ctx):
        w, ref = World(), {}
        kd = KeyDict()
        for n in range(length):
            op = ctx.choice("op%d" % n, nops)
            apply(ctx, op, n, kd, ref, w)
            if n == length-1 or ctx.concrete:
                compare(ctx, kd, ref, w, "after operations")
    return fn


def lookups(ctx):
    "looking things up between operations changes nothing"
    w, ref = World(), {}
    kd = KeyDict()
    for n in range(2):
        apply(ctx, ctx.choice("op%d" % n, NOPS), n, kd, ref, w)
        compare(ctx, kd, ref, w, "lookup once")
        compare(ctx, kd, ref, w, "lookup twice")


def copies(ctx):
    "a copy and its original are independent, whichever is written to"
    w, ref = World(), {}
    kd = KeyDict()
    apply(ctx, ctx.choice("first", 13), 0, kd, ref, w)
    apply(ctx, 5, 1, kd, ref, w)
    peek = ctx.boolean("peek")
    if peek:
        compare(ctx, kd, ref, w, "before copying")
    cp, cref = KeyDict(kd), dict(ref)
    op = ctx.choice("op", NOPS)
    if ctx.boolean("writeoriginal"):
        apply(ctx, op, 2, kd, ref, w)
    else:
        apply(ctx, op, 2, cp, cref, w)
    compare(ctx, kd, ref, w, "original")
    compare(ctx, cp, cref, w, "copy")
    # a copy of the copy, written element by element
    cp2, cref2 = KeyDict(cp), dict(cref)
    apply(ctx, 1, 3, cp, cref, w)
    apply(ctx, 0, 4, kd, ref, w)
    compare(ctx, cp2, cref2, w, "copy of the copy")
    compare(ctx, cp, cref, w, "copy after more writes")
    compare(ctx, kd, ref, w, "original after more writes")


def handed(ctx):
    "changing an array looked up from a copy, or the copied, leaves the other as it was"
    w, ref = World(), {}
    kd = KeyDict()
    for n in range(2):
        apply(ctx, ctx.choice("op%d" % n, NOPS), n, kd, ref, w)
    if not any(el.key in ref for el in w.v):
        return
    if ctx.boolean("peek"):
        kd[w.v]
    cp = KeyDict() if ctx.boolean("update") else KeyDict(kd)
    if not cp:
        cp.update(kd)
    other = KeyDict(cp)
    mine, theirs = [(cp, kd), (kd, cp), (other, cp)][ctx.choice("whose", 3)]
    got = mine[[w.v, w.v.key, "v"][ctx.choice("by", 3)]]
    ctx.check(hasattr(got, "shape"), "handed: an array")
    got[1] = val(ctx, "z")
    compare(ctx, theirs, ref, w, "handed: the other")
    if theirs is not kd and mine is not kd:
        compare(ctx, kd, ref, w, "handed: the original")


def united(ctx):
    "quantities and constant nomials are stored in the key's units"
    w = World()
    x, y = val(ctx, "x"), val(ctx, "y")
    kd = KeyDict()
    form = ctx.choice("form", 5)
    if form == 0:
        kd[w.w[0, 1]] = x*gpkit.ureg("cm")
        want = {(0, 1): x/100}
    elif form == 1:
        kd[w.w[1, 0]] = x*gpkit.units("km")
        want = {(1, 0): x*1000}
    elif form == 2:
        kd[w.w] = [[x, y], [x, x]] if not ctx.concrete else np.array([[x, y], [x, x]])
        want = {(0, 0): x, (0, 1): y, (1, 0): x, (1, 1): x}
        if not ctx.concrete:
            pass
    elif form == 3:
        kd[w.w] = x*gpkit.ureg("cm")
        want = {i: x/100 for i in np.ndindex(2, 2)}
    else:
        kd[w.w[0, 0]] = x
        kd[w.w[1, 1]] = y*gpkit.units("ft")
        want = {(0, 0): x, (1, 1): y*0.3048}
    for idx in np.ndindex(2, 2):
        el = w.w[idx]
        ctx.check((el in kd) == (idx in want), "united membership")
        if idx in want:
            ctx.eq(kd[el], want[idx], "united value")
            ctx.eq(kd(el).to("m").magnitude, want[idx], "call gives a quantity")
            ctx.eq(kd[w.w][idx], want[idx], "united value in the matrix")
    q = kd(w.w)
    ctx.check(str(q.units) == "meter", "whole vector as a quantity")


def cset(ctx):
    "substitution dictionaries of constraint sets resolve names of the set's variables"
    v, a = VectorVariable(3, "v"), X("a")
    b = X("b", lineage=(("Sub", 0),))
    x, y, z = val(ctx, "x"), val(ctx, "y"), val(ctx, "z")
    cs = gpkit.ConstraintSet([v >= a, b >= a])
    subs = cs.substitutions
    form = ctx.choice("form", 6)
    ref = {}
    if form == 0:
        subs["a"] = x
        ref[a.key] = x
    elif form == 1:
        subs["v"] = vec(ctx, [x, y, z])
        ref.update(zip((el.key for el in v), (x, y, z)))
    elif form == 2:
        subs.update({"b": x, "v": [y, z, x], a: z})
        ref.update(zip((el.key for el in v), (y, z, x)))
        ref[b.key], ref[a.key] = x, z
    elif form == 3:
        subs[v[1:]] = vec(ctx, [x, y])
        ref[v[1].key], ref[v[2].key] = x, y
    elif form == 4:
        subs[v[:2]] = x
        ref[v[0].key] = ref[v[1].key] = x
        subs["Sub.b"] = z
        ref[b.key] = z
    else:
        subs["v"] = x
        for el in v:
            ref[el.key] = x
        del subs[v[1]]
        del ref[v[1].key]
    for el in list(v)+[a, b]:
        ctx.check((el in subs) == (el.key in ref), "constraint set membership")
        if el.key in ref:
            exact(ctx, subs[el], ref[el.key], "constraint set value")
    if a.key in ref:
        exact(ctx, subs["a"], ref[a.key], "by name")
    if b.key in ref:
        exact(ctx, subs["b"], ref[b.key], "by name")
    for bad in ("q", "x", "va"):
        for op in (lambda: subs[bad], lambda: subs.__setitem__(bad, 1)):
            try:
                op()
                ctx.check(False, "names outside the set raise")
            except KeyError:
                ctx.check(True, "names outside the set raise")
    ctx.check(set(subs) == {k.veckey or k for k in ref}, "nothing else is stored")


def arrays2d(ctx):
    "matrices: by element, by row slices through a constraint set"
    w = VectorVariable((2, 2), "w")
    x = [val(ctx, "x%d" % i) for i in range(4)]
    kd = KeyDict()
    order = ctx.choice("order", 3)
    if order == 0:
        for (idx, q) in zip(np.ndindex(2, 2), x):
            kd[w[idx]] = q
    elif order == 1:
        m = np.array([[float(x[0]), float(x[1])], [float(x[2]), float(x[3])]]) if ctx.concrete \
            else vec(ctx, x).reshape(2, 2)
        kd[w] = m
    else:
        kd[w] = x[0]
        for (idx, q) in list(zip(np.ndindex(2, 2), x))[1:]:
            kd[w[idx]] = q
    for idx, q in zip(np.ndindex(2, 2), x):
        exact(ctx, kd[w[idx]], q, "matrix element")
        exact(ctx, kd["w"][idx], q, "matrix by name")
    del kd[w[0, 1]]
    ctx.check(w[0, 1] not in kd and w[1, 1] in kd, "deleting one matrix element")
    exact(ctx, kd[w[1, 0]], x[2], "other matrix elements are kept")


def keysets(ctx):
    "KeySets find every key of a name, and copies are independent"
    w = World()
    ks = KeySet([w.a.key, w.b.key] + [el.key for el in w.v])
    n = ctx.choice("n", 2)
    if n:
        ks2 = KeySet(ks)
        ks2.update([w.a2.key])
        ctx.check(set(ks2["a"]) == {w.a.key, w.a2.key}, "names of a key set")
        ctx.check(set(ks2[w.v.key]) == {el.key for el in w.v}, "vector of a key set")
    ctx.check(set(ks["a"]) == {w.a.key}, "names of a key set")
    ctx.check(set(ks["v"]) == {el.key for el in w.v}, "vector name of a key set")
    ctx.check("v" in ks and w.v[0] in ks and "zz" not in ks, "key set membership")
    ctx.check(not ks["zz"] and not ks[w.a2.key], "nothing under other names of a key set")
    ctx.check("zz" not in ks and w.a2.key not in ks and len(ks["a"]) == 1, "looking doesn't add to a key set")
    ctx.check(set(ks["b"]) == {w.b.key} == set(ks["Sub.b"]), "lineage names of a key set")
    ctx.check(len(ks) == 5, "key set size")


def h_shared(ctx):
    "the same array stored under two vectors, then written through one"
    w = World()
    x = VectorVariable(N, "x")
    arr = vec(ctx, [val(ctx, "p%d" % i) for i in range(N)])
    orig = list(arr)
    kd = KeyDict()
    for k in ((w.v, x) if ctx.boolean("order") else (x, w.v)):
        kd[k] = arr
    new = val(ctx, "new")
    i = ctx.choice("i", N)
    if ctx.boolean("read"):
        kd[w.v]     # pylint: disable=expression-not-assigned
    if ctx.boolean("delete"):
        del kd[w.v[i]]
    else:
        kd[w.v[i]] = new
        exact(ctx, kd[w.v[i]], new, "shared: the written entry")
    for j in range(N):
        exact(ctx, kd[x[j]], orig[j], "shared: the other vector's entries")
        exact(ctx, arr[j], orig[j], "shared: the provided array")
        if j != i:
            exact(ctx, kd[w.v[j]], orig[j], "shared: the other elements")


def h_retype(ctx):
    "functions and sweeps in a vector, replaced by numbers and back"
    w = World()
    fn = lambda c: 1
    kinds = [fn, ("sweep", [1, 2])]
    first = [kinds[ctx.choice("k%d" % i, 2)] if ctx.boolean("f%d" % i)
             else val(ctx, "p%d" % i) for i in range(N)]
    kd = KeyDict()
    if ctx.boolean("bylist"):
        kd[w.v] = first
    else:
        for el, v in zip(w.v, first):
            kd[el] = v
    for i, el in enumerate(w.v):
        if first[i] in kinds:
            ctx.check(el in kd and kd[el] is first[i] or kd[el] == first[i],
                      "retype: functions and sweeps come back")
        else:
            exact(ctx, kd[el], first[i], "retype: numbers beside them")
    second = vec(ctx, [val(ctx, "q%d" % i) for i in range(N)])
    skip = ctx.choice("skip", N+1)
    if skip < N:
        second[skip] = float("nan")
    kd[w.v] = second
    for i, el in enumerate(w.v):
        if i != skip:
            exact(ctx, kd[el], second[i], "retype: replaced by numbers")
        elif first[i] in kinds:
            ctx.check(kd[el] is first[i] or kd[el] == first[i], "retype: nan leaves the old value")
        else:
            exact(ctx, kd[el], first[i], "retype: nan leaves the old value")


def h_samename(ctx):
    "vectors and scalars of one name in several models, each with its own units"
    every = [VectorVariable(2, "q", "m", lineage=(("A", 0),)), VectorVariable(3, "q", "ft", lineage=(("A", 1),)),
             X("q", "kg", lineage=(("B", 0),)), X("q")]
    fac = {0: ("m", 1), 1: ("ft", 0.3048), 2: ("kg", 1), 3: ("", 1)}
    kd, vals = KeyDict(), {}
    reverse = ctx.boolean("reverse")
    for i in (range(3, -1, -1) if reverse else range(4)):
        if ctx.boolean("in%d" % i):
            n = every[i].key.shape[0] if every[i].key.shape else 0
            vals[i] = [val(ctx, "q%d_%d" % (i, j)) for j in range(n or 1)]
            kd[every[i]] = vec(ctx, vals[i]) if n else vals[i][0]
    if vals and ctx.boolean("delete"):
        gone = sorted(vals)[ctx.choice("gone", len(vals))]
        del kd[every[gone]]
        del vals[gone]

    def same(got, i, scale=1):
        if not every[i].key.shape:
            return ctx.eq(got, vals[i][0]*scale, "samename: value") if scale != 1 else \
                exact(ctx, got, vals[i][0], "samename: value")
        ctx.check(np.shape(got) == every[i].key.shape, "samename: shape")
        for g, w in zip(got, vals[i]):
            if scale != 1:
                ctx.eq(g, w*scale, "samename: elements")
            else:
                exact(ctx, g, w, "samename: elements")
    for name, who in (("q", [0, 1, 2, 3]), ("A.q", [0, 1]), ("A0.q", []), ("B.q", [2])):
        who = [i for i in who if i in vals]
        ctx.check((name in kd) == bool(who), "samename: is it there?")
        if not who:
            ctx.check(kd.get(name, "absent") == "absent", "samename: absent")
            continue
        got, united_ = kd[name], kd(name)
        if len(who) == 1:
            same(got, who[0])
            got, united_ = {every[who[0]].key: got}, {every[who[0]].key: united_}
        ctx.check(set(got) == {every[i].key for i in who}, "samename: all of them")
        ctx.check(set(united_) == {every[i].key for i in who}, "samename: all of them, as quantities")
        for i in who:
            same(got[every[i].key], i)
            q = united_[every[i].key]
            ctx.check(q.dimensionality == gpkit.units(fac[i][0] or "dimensionless").units.dimensionality,
                      "samename: dimensions")
            same(q.to_base_units().magnitude, i, fac[i][1])
    for i in vals:
        same(kd[every[i]], i)
        for j in range(len(vals[i]) if every[i].key.shape else 0):
            exact(ctx, kd[every[i][j]], vals[i][j], "samename: element")
            ctx.eq(kd(every[i][j]).to_base_units().magnitude, vals[i][j]*fac[i][1], "samename: element's quantity")
    if len(vals) > 1:
        i = max(vals)
        del kd["q"]
        ctx.check(not kd and "q" not in kd and every[i] not in kd, "samename: all deleted by name")


def h_columns(ctx):
    "the values of several solutions: whole columns, an element's column, single elements"
    n = 1 + ctx.choice("n", 3)
    v, a = VectorVariable(N, "v", "m"), X("a", "ft")
    rows = [[val(ctx, "v%d_%d" % (t, i)) for i in range(N)] for t in range(n)]
    cols = vec(ctx, [x for r in rows for x in r]).reshape(n, N)
    avals = [val(ctx, "a%d" % t) for t in range(n)]
    kd = KeyDict()
    kd.update({v.key: cols, a.key: vec(ctx, avals)})
    step, i = ctx.choice("step", 4), ctx.choice("i", N)
    have = set(range(N))
    if step == 1:
        del kd[v[i]]
        have.discard(i)
    elif step == 2:
        new = [val(ctx, "new%d" % t) for t in range(n)]
        kd[v[i]] = vec(ctx, new)
        for t in range(n):
            rows[t][i] = new[t]
    elif step == 3:
        kd = KeyDict(kd)
        kd[v[i]] = same = val(ctx, "same")
        for t in range(n):
            rows[t][i] = same
    ctx.check(np.shape(kd["v"]) == (n, N) and np.shape(kd["a"]) == (n,), "columns: shapes")
    for t in range(n):
        exact(ctx, kd[a][t], avals[t], "columns: scalar")
        ctx.eq(kd("a").to("m").magnitude[t], avals[t]*0.3048, "columns: scalars as a quantity")
    for j in range(N):
        ctx.check((v[j] in kd) == (j in have), "columns: elements there")
        for t in range(n):
            if j in have:
                for got in (kd[v][t, j], kd[v.key][t][j], kd["v"][t, j], kd[v[j]][t], kd[v[j].key][t]):
                    exact(ctx, got, rows[t][j], "columns: elements")
                ctx.eq(kd(v[j])[t].to("m").magnitude, rows[t][j], "columns: elements as a quantity")
            else:
                got = kd[v][t, j]
                ctx.check(type(got) is not Sym and np.isnan(float(got)), "columns: deleted elements are nan")
    for j in sorted(have):
        del kd[v[j]]
    ctx.check("v" not in kd and v not in kd and v.key not in kd, "columns: nothing left")
    ctx.check(set(kd) == {a.key}, "columns: the rest stays")


HARNESSES = [
    Harness("seq2", sequence(2, NOPS), "all pairs of 13 operations, vector of 3, symbolic values"),
    Harness("seq3", sequence(3, 12), "all triples of 12 operations"),
    Harness("lookups", lookups, "pairs of operations, lookups between"),
    Harness("handed", handed, "13x13 operations before, an array changed in place after",
            max_paths=20000),
    Harness("copies", copies, "13x13 operations, either side written"),
    Harness("united", united, "2x2 vector in metres, 5 forms", rtol=1e-9),
    Harness("cset", cset, "constraint set substitutions, 6 forms"),
    Harness("arrays2d", arrays2d, "2x2 matrix, 3 orders"),
    Harness("keysets", keysets, "5 keys"),
    Harness("seq4", sequence(4, NOPS), "all quadruples of 13 operations", tier="thorough",
            max_paths=40000),
    Harness("shared", h_shared, "2 vectors given one array; a write or deletion through one"),
    Harness("retype", h_retype, "3 elements each number/function/sweep, overwritten by numbers"),
    Harness("samename", h_samename, "2 vectors and 2 scalars of one name in 4 models, any of them there"),
    Harness("columns", h_columns, "1-3 solutions of a vector of 3 and a scalar; an element's column deleted or set"),
]
