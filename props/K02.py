"Variables are identified by name, lineage, index and units"
import builtins
import contextlib
import copy
import pickle
import numpy as np
from .lib import *
import gpkit.varkey
from gpkit.varkey import VarKey
from gpkit.keydict import KeyDict
from gpkit.small_scripts import is_sweepvar
from gpkit import NamedVariables, Vectorize

NAMES = ("x", "y", "x[0]", "A.x", "xNone")
LINEAGES = (None, (("A", 0),), (("A", 1),), (("A", 0), ("B", 0)), (("B", 0),), (("A", 1), ("B", 0)),
            (("A", 0), ("B", 1)))
IDXS = (None, (0,), (1,), (0, 1))
UNITS = (None, "m", "ft", "kg", "kilogram*meter**2/second**3", "kilogram*meter**2/second**2")


def attrs(ctx, tag, full=True):
    k = {}
    k["name"] = NAMES[ctx.choice(tag+"name", 5 if full else 3)]
    k["lineage"] = LINEAGES[ctx.choice(tag+"lin", 5) if full else (0, 1, 2, 3)[ctx.choice(tag+"lin", 4)]]
    k["idx"] = IDXS[ctx.choice(tag+"idx", 4 if full else 3)]
    k["units"] = UNITS[ctx.choice(tag+"units", 4) if full else (0, 1, 2, 4)[ctx.choice(tag+"units", 4)]]
    return k


def mk(a):
    kw = {k: v for k, v in a.items() if v is not None and k != "name"}
    if "idx" in kw:
        kw["shape"] = (2,)*len(kw["idx"])
    return VarKey(a["name"], **kw)


def identity(mode):
    def fn(ctx):
        a = attrs(ctx, "a", full=False)
        if mode == "full":
            b = attrs(ctx, "b", full=False)
        else:   # one field changed, all values of it
            b = dict(a)
            f = ("name", "lineage", "idx", "units")[ctx.choice("field", 4)]
            pool = {"name": NAMES, "lineage": LINEAGES, "idx": IDXS, "units": UNITS}[f]
            b[f] = pool[ctx.choice("other", len(pool) if len(pool) > 4 else 4)]
        k1, k2 = mk(a), mk(b)
        same = a == b
        ctx.check((k1 == k2) == same, "equal exactly when name, models, index and units are")
        ctx.check((k1 != k2) == (not same), "unequal exactly otherwise")
        if same:
            ctx.check(hash(k1) == hash(k2), "equal variables hash equally")
        ctx.check(len({k1, k2}) == (1 if same else 2), "as set elements")
        # as exponents of nomials, with an arbitrary exponent and coefficient
        c, e = ctx.pos("c"), (1.5 if a["units"] or b["units"] else ctx.pos("e"))
        x1, x2 = Variable(k1), Variable(k2)
        q = c*x1**e/x2**e
        ctx.check((not q.vks) == same, "powers of a variable cancel only with itself")
        if a["units"] == b["units"]:
            with SignomialsEnabled():
                d = c*x1**e - c*x2**e
            ctx.check((not d.vks) == same, "terms cancel only with themselves")
        rest = [{k: v for k, v in z.items() if k != "idx"} for z in (a, b)]
        if rest[0] != rest[1] or same:    # (a vector and its elements share an entry)
            ctx.check((k2 in KeyDict({k1: c})) == same, "dictionary membership follows identity")
        ctx.check(k1 != "x" and not k1 == a["name"], "a variable is not its name")
    return fn


@contextlib.contextmanager
def other_process():
    "string hashes are salted per process; emulate another process's"
    gpkit.varkey.hash = lambda s: builtins.hash("other process" + str(s))
    try:
        yield
    finally:
        del gpkit.varkey.hash


def pickling(ctx):
    a = attrs(ctx, "a")
    c, d = ctx.pos("c"), ctx.pos("d")
    value = [None, 3.5, ("sweep", [1, 2]), lambda k: 3, 0, 0.0][ctx.choice("value", 6)]
    kw = {"value": value} if value is not None else {}
    kw["label"] = "a label"

    def make():
        k = mk(dict(a, **kw))
        v = Variable(k)
        other = Variable("zz")
        p = 2*v*other**1.5 + 3*v + 4*v*other
        hash(p)
        for exp in p.hmap:
            hash(exp)
        return k, v, p
    if ctx.boolean("remote"):
        with other_process():
            data = pickle.dumps(make())
    else:
        data = pickle.dumps(make())
    k2, v2, p2 = pickle.loads(data)
    k, v, p = make()
    ctx.check(k2 == k and k == k2, "an unpickled variable is the same variable")
    ctx.check(hash(k2) == hash(k), "and hashes the same")
    ctx.check({k: 1}.get(k2) == 1 and {k2: 1}.get(k) == 1, "and finds the same entries")
    for at in ("name", "lineage", "idx", "shape", "units", "label", "unitrepr"):
        ctx.check(getattr(k2, at) == getattr(k, at), "its attributes are kept")
    ctx.check(k2.keys == k.keys, "its aliases are kept")
    if a["idx"]:
        ctx.check(k2.veckey == k.veckey, "an element keeps its vector")
        ctx.check(k2.veckey.idx is None, "the vector has no index")
    if value is not None:
        ctx.check(is_sweepvar(k2.value) == is_sweepvar(k.value), "swept values stay swept")
        if value in (3.5, 0):
            ctx.check(k2.value == value and not isinstance(k2.value, str), "values are kept")
        if callable(value):
            ctx.check(isinstance(k2.value, str), "functions are replaced by a note")
    ctx.check(v2.key == k and type(v2) is type(v), "unpickled Variable")
    ctx.check(p2 == p and p == p2, "an unpickled nomial is the same nomial")
    ctx.check(hash(p2) == hash(p), "and hashes the same")
    q = c*p2 + d*p
    ctx.check(len(q.hmap) == len(p.hmap), "unpickled terms merge with equal terms")
    pt = {k: ctx.pos("x"), Variable("zz").key: ctx.pos("z")}
    ctx.eq(value_(q, pt), (c+d)*value_(p, pt), "unpickled nomials add correctly")
    ctx.check(not (v2/v).vks, "an unpickled variable cancels with itself")
    k3 = copy.deepcopy(k)
    ctx.check(k3 == k and hash(k3) == hash(k), "deep copies are the same variable")


value_ = value


def vectors(ctx):
    "elements know their vector and position"
    shapes = [(1,), (3,), (2, 2), (2, 1, 2)]
    shape = shapes[ctx.choice("shape", 4)]
    units = UNITS[ctx.choice("units", 2)]
    vectorized = ctx.choice("vec", 2)
    named = ctx.boolean("named")
    with NamedVariables("Outer") if named else contextlib.nullcontext():
        with Vectorize(2) if vectorized else contextlib.nullcontext():
            V = VectorVariable(shape, "v", *([units] if units else []), label="its label")
            s = gpkit.Variable("s")
    full = shape + ((2,) if vectorized else ())
    ctx.check(V.shape == full, "shape of a vector variable")
    ctx.check(V.key.shape == full and V.key.idx is None, "its key has its shape")
    seen = set()
    for idx in np.ndindex(*full):
        k = V[idx].key
        ctx.check(k.idx == idx, "an element knows its position")
        ctx.check(k.veckey == V.key and hash(k.veckey) == hash(V.key), "and its vector")
        ctx.check(k.shape == full, "and its vector's shape")
        ctx.check(k.name == "v" and k.units == V.key.units and k.label == "its label",
                  "and its description")
        ctx.check(k.lineage == ((("Outer", 0),) if named else None), "and its model")
        ctx.check(k != V.key and k not in seen, "elements are distinct variables")
        ctx.check(V.key in k.keys and "v" in k.keys, "aliases of an element")
        seen.add(k)
    ctx.check(len(seen) == np.prod(full), "one variable per position")
    ctx.check(np.shape(s) == ((2,) if vectorized else ()), "vectorized scalars")
    if not vectorized:
        V2 = VectorVariable(shape, "v", *([units] if units else []))
        ctx.check((V2.flat[0].key == V.flat[0].key) == (not named),
                  "recreated elements are the same variables")


def values(ctx):
    "each element receives its own default value"
    n = 3
    vals = [ctx.pos("v%d" % i) for i in range(n)]
    arr = np.array([float(v) for v in vals]) if ctx.concrete else np.empty(n, dtype=object)
    if not ctx.concrete:
        arr[:] = vals
    form = ctx.choice("form", 4)
    if form == 0:
        V = VectorVariable(n, "v", arr)
        want = vals
    elif form == 1:
        V = VectorVariable(n, "v", list(vals))
        want = vals
    elif form == 2:
        with Vectorize(n):
            V = gpkit.Variable("v", vals[0])
        want = [vals[0]]*n
    else:
        with Vectorize(n):
            V = VectorVariable(2, "v", np.array([vals[0], vals[1]], dtype=None if ctx.concrete
                                               else object))
        ctx.check(V.shape == (2, n), "vectorized vector shape")
        for i in range(2):
            for j in range(n):
                ctx.eq(V[i, j].key.value, vals[i], "vectorized vector values")
        return
    for i in range(n):
        ctx.eq(V[i].key.value, want[i], "element value")
    m = gpkit.Model(V[0], [V >= 1])
    for i in range(n):
        ctx.eq(m.substitutions[V[i]], want[i], "element substitution")
    try:
        VectorVariable(n, "w", list(vals)+[1])
        ctx.check(False, "wrong number of values raises")
    except ValueError:
        ctx.check(True, "wrong number of values raises")


def unnamed(ctx):
    "anonymous variables are all different"
    a, b = gpkit.Variable(), gpkit.Variable()
    V, W = VectorVariable(2), VectorVariable(2)
    ks = [a.key, b.key, V[0].key, V[1].key, W[0].key, W[1].key]
    c = ctx.pos("c")
    ctx.check(len(set(ks)) == 6, "anonymous variables are distinct")
    for i, k in enumerate(ks):
        for j, l in enumerate(ks):
            ctx.check((k == l) == (i == j), "anonymous variables are distinct")
    ctx.check(len((c*a/b).vks) == 2, "anonymous variables do not cancel")


HARNESSES = [
    Harness("identity_full", identity("full"), "144x144 pairs of attribute tuples, symbolic exponents",
            max_paths=30000),
    Harness("identity_field", identity("field"), "144 x one field changed to any of up to 7 values",
            max_paths=8000),
    Harness("pickling", pickling, "400 attribute tuples, 6 kinds of value, same/other process",
            max_paths=8000),
    Harness("vectors", vectors, "4 shapes, units, vectorized and/or named"),
    Harness("values", values, "3 elements, 4 forms"),
    Harness("unnamed", unnamed, "6 variables"),
]
