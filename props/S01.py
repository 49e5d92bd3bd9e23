"Substitutions are split faithfully into constants, sweeps and links"
import numpy as np
import gpkit
from .lib import *
from gpkit.keydict import KeyDict, KeySet
from gpkit.nomials.substitution import parse_subs
from gpkit.constraints.set import ConstraintSet

M = gpkit.ureg.meter
FT = 0.3048
KINDS = ("free", "number", "quantity", "sweep", "function")
MARK = "".join(["swe", "ep"])     # equal to, but not the same object as, "sweep"


def make(ctx, kind, name, united):
    "(the substituted value, what should come out) of one scalar"
    v = ctx.pos(name)
    fac = 1/FT if united else 1
    if kind == "number":
        return v, ("constant", v)
    if kind == "quantity":
        return v*(M if united else gpkit.units("dimensionless")), ("constant", v*fac)
    if kind == "sweep":
        vals = [v, v+1]
        return (MARK, vals), ("sweep", vals)
    if kind == "usweep":
        return (MARK, [v*M, (v+1)*M]), ("sweep", [v*fac, (v+1)*fac])
    if kind == "function":
        f = lambda c: v
        return f, ("link", f)
    return float("nan"), None


def number(ctx, got, key, united):
    "magnitude in the key's units of a parsed constant"
    if hasattr(got, "hmap"):
        got = got.value
    if hasattr(got, "units"):
        fac, _ = si(got.units*1)
        got = got.magnitude*(fac/(FT if united else 1))
    return got


def flat(x):
    return list(x.flat) if hasattr(x, "flat") else list(x)


def compare(ctx, parsed, want, vks, tag):
    constants, sweep, links = parsed
    for k in vks:
        w = want.get(k)
        kind = w[0] if w else None
        united = bool(k.units)
        ctx.check((k in constants) == (kind == "constant"), tag+": is constant")
        ctx.check((k in sweep) == (kind == "sweep"), tag+": is swept")
        ctx.check((k in links) == (kind == "link"), tag+": is linked")
        if kind == "constant" and k in constants:
            ctx.eq(number(ctx, constants[k], k, united), w[1], tag+": constant's value")
        if kind == "sweep" and k in sweep:
            got = sweep[k]
            ctx.check(np.shape(got) == np.shape(w[1]), tag+": number of swept values")
            if np.shape(got) == np.shape(w[1]) == ():
                ctx.eq(number(ctx, got, k, united), w[1], tag+": swept value")
            elif len(got) == len(w[1]):
                for g, x in zip(flat(got), w[1]):
                    ctx.eq(number(ctx, g, k, united), x, tag+": swept values in order")
        if kind == "link" and k in links:
            ctx.check(links[k] is w[1], tag+": linked function")
    for d in parsed:
        ctx.check(set(d) <= set(vks), tag+": nothing but the variables present")


def h_scalars(ctx):
    "two scalars of any kind, through each kind of dictionary and alias"
    a, b = X("a", "ft"), X("b")
    other = X("c")
    kinds = KINDS + ("usweep",)
    subs, want, vks = {}, {}, [a.key, b.key]
    alias = ctx.choice("alias", 3)
    how = ctx.choice("how", 3)
    for x, name in ((a, "a"), (b, "b")):
        kind = kinds[ctx.choice("kind_"+name, len(kinds) if name == "a" else len(KINDS))]
        sub, w = make(ctx, kind, "v_"+name, name == "a")
        if kind == "free" and ctx.boolean("absent_"+name):
            continue
        subs[(x, x.key, name)[alias]] = sub
        if w:
            want[x.key] = w
    subs[other] = ctx.pos("v_c")     # not among the variables present
    if how == 0:
        parsed = parse_subs(KeySet(vks), subs)
    elif how == 1 and alias < 2:      # these don't take names outside of sets
        parsed = parse_subs(set(vks), KeyDict(subs))
    else:
        cs = ConstraintSet([a*b*other >= gpkit.units.ft, other >= 1], subs)
        want[other.key] = ("constant", subs[other])
        vks.append(other.key)
        parsed = parse_subs(cs.varkeys, cs.substitutions)
    compare(ctx, parsed, want, vks, "scalars")


def h_elements(ctx):
    "a vector whose elements are each of any kind"
    n = 3
    x = VectorVariable(n, "x", "ft")
    vks = [el.key for el in x]
    kinds = [KINDS[ctx.choice("kind%d" % i, len(KINDS))] for i in range(n)]
    vals, want = [], {}
    for i, k in enumerate(vks):
        sub, w = make(ctx, kinds[i], "v%d" % i, True)
        vals.append(sub)
        if w:
            want[k] = w
    how = ctx.choice("how", 5)
    if how == 0:            # a list, in a plain dictionary
        parsed = parse_subs(KeySet(vks), {x: vals})
    elif how == 1:          # a list, in a KeyDict, by name
        kd = KeyDict()
        kd[x] = vals
        parsed = parse_subs(KeySet(vks), kd)
    elif how == 2:          # element by element, in order
        kd = KeyDict()
        for el, v, kind in zip(x, vals, kinds):
            if kind != "free":
                kd[el] = v
        parsed = parse_subs(KeySet(vks), kd)
    elif how == 3:          # element by element, backwards, in a constraint set
        cs = ConstraintSet([x.prod() >= gpkit.units.ft**3])
        for i in reversed(range(n)):
            if kinds[i] != "free":
                cs.substitutions["x[%d]" % i] = vals[i]
        parsed = parse_subs(cs.varkeys, cs.substitutions)
    else:                   # numbers first, then some replaced
        kd = KeyDict({x: vec(ctx, [ctx.pos("u%d" % i) for i in range(n)])})
        for i, el in enumerate(x):
            if kinds[i] == "free":
                want[el.key] = ("constant", ctx.pos("u%d" % i))
            else:
                kd[el] = vals[i]
        parsed = parse_subs(KeySet(vks), kd)
    compare(ctx, parsed, want, vks, "elements")


def vec(ctx, vals):
    if ctx.concrete:
        return np.array([float(v) for v in vals])
    out = np.empty(len(vals), dtype=object)
    out[:] = vals
    return out


def mat(ctx, rows):
    if ctx.concrete:
        return np.array([[float(v) for v in r] for r in rows])
    out = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        out[i, :] = r
    return out


def h_vectors(ctx):
    "whole vectors: scalars, arrays, united arrays, sweeps by row, ragged sweeps"
    x = VectorVariable(3, "x", "ft")
    y = VectorVariable((2, 2), "y")
    vks = [el.key for el in x] + [el.key for el in y.flat]
    subs, want = {}, {}
    p = [ctx.pos("p%d" % i) for i in range(6)]
    kind = ctx.choice("xkind", 8)
    how = ctx.choice("how", 3)
    if kind == 0:
        subs[x] = p[0]
        want.update({el.key: ("constant", p[0]) for el in x})
    elif kind == 1:
        subs[x] = p[0]*M
        want.update({el.key: ("constant", p[0]/FT) for el in x})
    elif kind == 2:
        subs[x] = vec(ctx, p[:3])
        want.update({el.key: ("constant", p[i]) for i, el in enumerate(x)})
    elif kind == 3:
        subs[x] = vec(ctx, p[:3])*M
        want.update({el.key: ("constant", p[i]/FT) for i, el in enumerate(x)})
    elif kind == 4:
        subs[x] = (MARK, mat(ctx, [p[:3], p[3:]]))
        want.update({el.key: ("sweep", [p[i], p[3+i]]) for i, el in enumerate(x)})
    elif kind == 5:
        subs[x] = (MARK, [p[:3], p[3:]])
        want.update({el.key: ("sweep", [p[i], p[3+i]]) for i, el in enumerate(x)})
    elif kind == 6:
        subs[x] = (MARK, [p[:3], p[3:5], p[5:]])
        want.update({el.key: ("sweep", v) for el, v in zip(x, (p[:3], p[3:5], p[5:]))})
    else:
        subs[x] = (MARK, mat(ctx, [p[:3], p[3:]])*M)
        want.update({el.key: ("sweep", [p[i]/FT, p[3+i]/FT]) for i, el in enumerate(x)})
    ykind = ctx.choice("y", 4)
    if ykind == 1:
        subs[y.key] = [[p[0], p[1]], [p[2], p[3]]]
        want.update({el.key: ("constant", p[i]) for i, el in enumerate(y.flat)})
    elif ykind == 2:      # two 2x2 arrays
        rows = mat(ctx, [p[:4], p[2:]]).reshape(2, 2, 2)
        subs[y.key] = (MARK, rows)
        want.update({el.key: ("sweep", [p[i], p[2+i]]) for i, el in enumerate(y.flat)})
    elif ykind == 3:      # each element over its own values
        subs[y.key] = (MARK, [[p[:2], p[2:]], [p[1:3], p[3:]]])
        want.update({el.key: ("sweep", v) for el, v in
                     zip(y.flat, (p[:2], p[2:], p[1:3], p[3:]))})
    if ctx.boolean("byname"):
        subs = {v.key.name: s for v, s in subs.items()}
        how = min(how, 1)*2      # KeyDicts outside of sets don't know names
    if how == 0:
        parsed = parse_subs(KeySet(vks), subs)
    elif how == 1:
        parsed = parse_subs(KeySet(vks), KeyDict(subs))
    else:
        cs = ConstraintSet([x.prod() >= gpkit.units.ft**3, y.prod() >= 1], subs)
        parsed = parse_subs(cs.varkeys, cs.substitutions)
    compare(ctx, parsed, want, vks, "vectors")


def h_shapes(ctx):
    "arrays that do not fit the vector are rejected"
    x = VectorVariable(3, "x")
    vks = [el.key for el in x]
    p = [ctx.pos("p%d" % i) for i in range(4)]
    bad = [vec(ctx, p), vec(ctx, p[:2]), mat(ctx, [p[:3], p[:3]]), p, p[:2],
           (MARK, vec(ctx, p[:2])), (MARK, mat(ctx, [p[:2], p[2:]])), (MARK, p)]
    sub = bad[ctx.choice("which", len(bad))]
    for name, wrap in (("dict", dict), ("KeyDict", KeyDict)):
        try:
            parsed = parse_subs(KeySet(vks), wrap({x: sub}))
            ctx.check(False, name+": ill-shaped values rejected, got %s" % (parsed,))
        except (ValueError, KeyError, IndexError):
            ctx.check(True, name+": ill-shaped values rejected")


def h_models(ctx):
    "variables of the same name in two models get only their own values"
    la, lb = (("A", 0),), (("B", 0),)
    xa, xb, x = X("x", lineage=la), X("x", lineage=lb), X("x")
    v = VectorVariable(2, "x", lineage=(("V", 0),))
    vks = [xa.key, xb.key, x.key] + [el.key for el in v]
    cs = ConstraintSet([xa*xb*x*v.prod() >= 1])
    target = ctx.choice("target", 5)
    sub, w = make(ctx, KINDS[1+2*ctx.choice("kind", 2)], "v", False)
    var = (xa, xb, x, v[0], v[1])[target]
    name = ("A.x", "B.x", None, "V.x[0]", "V.x[1]")[target]
    key = name if name and ctx.boolean("byname") else var
    how = ctx.choice("how", 3)
    if how == 0 and not w[0] == "sweep":
        parsed = parse_subs(cs.varkeys, {key: sub})
    elif how == 1 and key is var:
        parsed = parse_subs(cs.varkeys, KeyDict({key: sub}))
    else:
        cs.substitutions[key] = sub
        parsed = parse_subs(cs.varkeys, cs.substitutions)
    compare(ctx, parsed, {var.key: w}, vks, "same names")
    # a bare name names all of them, outside of sets
    if w[0] == "constant":
        parsed = parse_subs(cs.varkeys, {"x": sub})
        compare(ctx, parsed, {k: w for k in vks}, vks, "shared name")


def h_clean(ctx):
    "substitutions already collated by variable"
    a, b = X("a"), X("b", "ft")
    x = VectorVariable(2, "x")
    present = [a.key, x[1].key] + ([b.key] if ctx.boolean("b") else [])
    vals = {k: ctx.pos("v%d" % i) for i, k in enumerate([a.key, b.key, x[0].key, x[1].key])}
    subs = {k: v for i, (k, v) in enumerate(vals.items()) if ctx.boolean("has%d" % i)}
    parsed = parse_subs(set(present), subs, clean=True)
    want = {k: ("constant", subs[k]) for k in present if k in subs}
    compare(ctx, parsed, want, list(vals), "collated")
    ctx.check(set(subs) == {k for k in vals if k in subs}, "collated: input unchanged")


HARNESSES = [
    Harness("scalars", h_scalars, "2 scalar variables; 6 kinds of value; dict, KeyDict, set; 3 aliases"),
    Harness("elements", h_elements, "1 vector of 3; each element free/number/quantity/sweep/function; 5 ways"),
    Harness("vectors", h_vectors, "a 3-vector and a 2x2 array; 8 kinds of whole-vector value; 3 containers"),
    Harness("shapes", h_shapes, "8 ill-shaped values"),
    Harness("models", h_models, "5 variables of one name in 4 models"),
    Harness("collated", h_clean, "4 variables, any subset"),
]
