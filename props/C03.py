"Nested constraint sets contribute every constraint exactly once"
import numpy as np
import gpkit
from .lib import *
from gpkit import Model, VectorVariable, Vectorize
from gpkit.nomials import NomialArray
from gpkit.constraints.set import ConstraintSet
from gpkit.constraints.costed import CostedConstraintSet
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.sigeq import SignomialEquality


def objs(ctx, n):
    return np.array([None]*n, dtype=object)


class World:
    "what a set of constraints should know"
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        self.leaves, self.vks, self.subs = [], set(), {}
        self.shared = X("s")
        self.svalue = None

    def leaf(self, kinds):
        "one constraint (or array of them), recorded"
        ctx, i = self.ctx, self.n
        self.n += 1
        kind = kinds[ctx.choice("leaf%d" % i, len(kinds))]
        c = ctx.pos("c%d" % i)
        if kind == "vector":
            v = VectorVariable(2, "v%d" % i)
            con = (v >= c*self.shared)
            self.leaves.extend(con.flat if hasattr(con, "flat") else list(con))
            self.vks.update(el.key for el in v)
            self.vks.add(self.shared.key)
            return con
        if kind == "vecvalue":
            a, b = ctx.pos("va%d" % i), ctx.pos("vb%d" % i)
            val = [a, b] if not ctx.concrete else np.array([float(a), float(b)])
            v = VectorVariable(2, "w%d" % i, val)
            con = (v[1] <= c*self.shared)
            self.leaves.append(con)
            self.vks.update([v[1].key, self.shared.key])
            self.subs[v[1].key] = b
            return con
        if kind == "number":
            val = ctx.pos("v%d" % i)
            x = X("x%d" % i, val)
            self.subs[x.key] = val
        elif kind == "link":
            val = lambda consts: c
            x = X("x%d" % i, val)
            self.subs[x.key] = val
        else:
            x = X("x%d" % i)
        self.vks.update([x.key, self.shared.key])
        con = (c*x == self.shared) if kind == "equality" else (x + c*self.shared <= 1)
        self.leaves.append(con)
        return con


SCALARS = ("free", "number", "equality")
KINDS = ("free", "number", "link", "equality", "vector", "vecvalue")


def wrap(ctx, w, elements, name):
    "the elements in a container of any kind"
    kind = ctx.choice(name, 9)
    if kind == 0:
        return list(elements)
    if kind == 1:
        return {"label%d" % i: e for i, e in enumerate(elements)}
    if kind == 2:
        return ConstraintSet(elements)
    if kind == 3:
        return ConstraintSet({"label%d" % i: e for i, e in enumerate(elements)})
    if kind == 4:
        cost = X("cost"+name)
        w.vks.add(cost.key)
        return CostedConstraintSet(cost, elements)
    if kind == 5:
        return tuple(elements)
    if kind == 6:
        val = ctx.pos("costval"+name)
        cost = X("cost"+name, val)
        w.vks.add(cost.key)
        w.subs[cost.key] = val
        return Model(cost*w.shared, elements)
    if kind == 7:
        return Tight(elements)
    arr = objs(ctx, len(elements))
    for i, e in enumerate(elements):
        arr[i] = e
    return Loose(list(arr))


def verify(ctx, cs, w, tag):
    got = list(cs.flat())
    ctx.check(len(got) == len(w.leaves), tag+": flat lists every constraint once")
    ctx.check(all(a is b for a, b in zip(got, w.leaves)), tag+": flat keeps the order")
    want = [hm for leaf in w.leaves for hm in leaf.as_hmapslt1({})]
    hms = list(cs.as_hmapslt1({}))
    ctx.check(len(hms) == len(want), tag+": every normal form once")
    for a, b in zip(hms, want):
        ctx.check(set(a) == set(b) and len(a) == len(b), tag+": normal forms in order")
        for e in b:
            if e in a:
                ctx.eq(a[e], b[e], tag+": normal form coefficients")
    ctx.check(cs.vks == w.vks, tag+": knows every variable")
    ctx.check(set(cs.varkeys) == w.vks, tag+": knows every variable")
    for k in w.vks:
        ctx.check((k in cs.substitutions) == (k in w.subs), tag+": knows which have values")
        if k in w.subs and k in cs.substitutions:
            v = w.subs[k]
            if callable(v) and not isinstance(v, Sym):
                ctx.check(cs.substitutions[k] is v, tag+": knows the links")
            else:
                ctx.eq(cs.substitutions[k], v, tag+": knows the default values")
    ctx.check(cs.bounded >= {(k, d) for k in w.subs for d in ("upper", "lower")},
              tag+": fixed variables are bounded")
    for leaf in w.leaves:
        ctx.check(cs.bounded >= leaf.bounded, tag+": bounds from every constraint")


def h_nest(ctx):
    "one container inside another, with constraints before and after"
    w = World(ctx)
    where = ctx.choice("where", 3)
    elements = []
    if where in (1, 2):
        elements.append(w.leaf(SCALARS))
    inner = wrap(ctx, w, [w.leaf(KINDS), w.leaf(("free",))], "inner")
    elements.append(inner)
    if where in (0, 2):
        elements.append(w.leaf(("free", "number")))
    top = ctx.choice("top", 4)
    if top == 0:
        cs = ConstraintSet(elements)
    elif top == 1:
        cs = ConstraintSet({"a%d" % i: e for i, e in enumerate(elements)})
        for i, e in enumerate(elements):
            ctx.check(cs["a%d" % i] is e, "nest: elements by name")
    elif top == 2:
        cost = X("topcost")
        w.vks.add(cost.key)
        cs = Model(cost, elements)
    else:
        cs = Tight(elements)
    for i, e in enumerate(elements):
        if top in (0, 1):
            ctx.check(cs[i] is e, "nest: elements by position")
    verify(ctx, cs, w, "nest")


def h_deep(ctx):
    "three levels of containers"
    w = World(ctx)
    a = wrap(ctx, w, [w.leaf(("number",))], "deep")
    b = wrap(ctx, w, [a, w.leaf(("link",))], "middle")
    cs = ConstraintSet([b]) if ctx.boolean("listed") else ConstraintSet(b)
    verify(ctx, cs, w, "deep")


def h_override(ctx):
    "outer substitutions override inner ones; members' values otherwise kept"
    x, y = X("x", ctx.pos("vx")), X("y", ctx.pos("vy"))
    v1, v2 = ctx.pos("v1"), ctx.pos("v2")
    inner = Model(x, [x >= y], substitutions={x: v1})
    ctx.eq(inner.substitutions[x], v1, "override: inner substitution wins over the default")
    which = ctx.choice("which", 3)
    z = X("z")
    if which == 0:
        outer = Model(z, [z >= x, inner], substitutions={x: v2})
        want = v2
    elif which == 1:
        outer = Model(z, [inner, z >= x])
        want = v1
    else:
        outer = ConstraintSet([z >= x, inner], {y: v2})
        ctx.eq(outer.substitutions[y], v2, "override: constraint set substitution")
        want = v1
    ctx.eq(outer.substitutions[x], want, "override: outermost wins")
    outer.substitutions[x] = 77
    ctx.eq(inner.substitutions[x], v1, "override: the member is not written to")
    inner.substitutions[y] = 55
    if which != 2:
        ctx.eq(outer.substitutions[y], ctx.pos("vy"), "override: the set is not written to")


def h_bad(ctx):
    "elements that are no constraints are refused, with their name"
    x, y = X("x"), X("y")
    good = [x >= ctx.pos("a"), y >= ctx.pos("b"), x*y >= 1]
    bad = [True, False, None, 3.5, "text", x][ctx.choice("bad", 6)]
    pos = ctx.choice("pos", 4)
    how = ctx.choice("how", 5)
    el = [bad, [bad], {"k": bad}, [good[0], bad], (bad,)][how]
    if pos < 3:
        elements = list(good[:2])
        elements.insert(pos, el)
    else:
        elements = [el]
    make = [ConstraintSet, lambda c: Model(x, c), Tight][ctx.choice("cls", 3)]
    try:
        make(elements)
        ctx.check(False, "bad: refused")
    except ValueError as e:
        ctx.check("Invalid ConstraintSet element" in str(e) and repr(el) in str(e),
                  "bad: named in the error")
    except Exception as e:
        ctx.check(False, "bad: refused with a ValueError")


def h_uninit(ctx):
    "a set used before its own __init__ is refused; an empty one is fine"
    class Lazy(ConstraintSet):
        def __init__(self):          # pylint: disable=super-init-not-called
            pass
    x = X("x")
    try:
        ConstraintSet([x >= ctx.pos("a"), Lazy()])
        ctx.check(False, "uninitialized: refused")
    except ValueError as e:
        ctx.check("not yet been initialized" in str(e), "uninitialized: said so")
    empty = ConstraintSet([[], {}, ConstraintSet([]), ()])
    ctx.check(list(empty.flat()) == [] and list(empty.as_hmapslt1({})) == [], "empty: nothing")
    ctx.check(not empty.vks and not empty.substitutions, "empty: nothing")


def h_names(ctx):
    "variables by name, in sets and through their vectors"
    c = ctx.pos("c")
    x, y, v = X("x"), X("y"), VectorVariable(3, "v")
    partial = ctx.boolean("partial")
    cs = ConstraintSet([x >= c*y, (v[1:] if partial else v) >= c])
    ctx.check(cs["x"].key == x.key and cs[x].key == x.key, "names: scalar")
    arr = cs["v"]
    ctx.check(arr.shape == (3,), "names: vector")
    for i in range(3):
        if i == 0 and partial:
            ctx.check(isinstance(arr[0], float) and np.isnan(arr[0]), "names: absent elements")
        else:
            ctx.check(arr[i].key == v[i].key, "names: elements in place")
    got = cs.variables_byname("v")
    ctx.check([g.key.idx for g in got] == [(i,) for i in range(1 if partial else 0, 3)],
              "names: sorted by index")
    try:
        cs["nothing"]
        ctx.check(False, "names: unknown refused")
    except KeyError:
        ctx.check(True, "names: unknown refused")


class Part(Model):
    "a part with a scalar and a vector"
    def setup(self, n, low):
        m = self.m = X("m")
        p = self.p = VectorVariable(n, "p")
        self.label = "a part"
        return [m >= low, p >= m]


def h_view(ctx):
    "views of models made under Vectorize select their elements' variables"
    low = ctx.pos("low")
    outer, inner, n = 1 + ctx.choice("outer", 3), 1 + ctx.choice("inner", 3), 1 + ctx.choice("n", 2)
    depth = ctx.choice("depth", 3)
    dims = [(), (inner,), (inner, outer)][depth]     # the outermost Vectorize comes last
    if depth == 0:
        part = Part(n, low)
    elif depth == 1:
        with Vectorize(inner):
            part = Part(n, low)
    else:
        with Vectorize(outer):
            with Vectorize(inner):
                part = Part(n, low)
    whole = part
    if ctx.boolean("wrapped"):
        whole = ConstraintSet([part])
        whole.part = part
    if dims:
        ctx.check(part.m.shape == dims, "view: dimensions")
    ctx.check(part.p.shape == (n,) + dims, "view: dimensions of a vector")
    view = whole.as_view()
    get = (lambda v: v.part) if whole is not part else (lambda v: v)
    idx = tuple(ctx.choice("i%d" % k, d) for k, d in enumerate(dims))
    how = ctx.choice("how", 3)
    if depth == 2:
        v = [lambda: get(view)[idx], lambda: get(view[idx[1]][idx[0]]),
             lambda: get(view[idx[1]])[idx[0]]][how]()
    elif depth == 1:
        v = [lambda: get(view)[idx], lambda: get(view[idx[0]]), lambda: get(view)[idx[0]]][how]()
    else:
        v = get(view)
    got = v.m if dims else part.m
    ctx.check(got.key == (part.m[idx] if dims else part.m).key, "view: a scalar's element")
    for k in range(n):
        ctx.check(v.p[k].key == part.p[(k,) + idx].key, "view: a vector's element")
    ctx.check(v.p.shape == (n,), "view: a vector's shape")
    if depth == 2:
        ctx.check([u.key for u in get(view)[idx[1]].m]
                  == [part.m[i, idx[1]].key for i in range(inner)], "view: half an index")
    for attr, err in [("label", ValueError), ("nothing", AttributeError)]:
        try:
            getattr(v, attr)
            ctx.check(False, "view: %s refused" % attr)
        except err:
            ctx.check(True, "view: %s refused" % attr)


def h_order(ctx):
    "the elements of a long vector, and of a matrix, by name, in order"
    c = ctx.pos("c")
    if ctx.boolean("matrix"):
        v = VectorVariable((2, 11), "v")
    else:
        v = VectorVariable(12, "v")
    first = v.flat[ctx.choice("first", v.size)]
    els = [u for u in v.flat if u.key != first.key]
    cs = ConstraintSet([first >= c] + [u >= c for u in (els[::-1] if ctx.boolean("rev") else els)])
    want = [u.key for u in v.flat]
    ctx.check([u.key for u in cs.variables_byname("v")] == want, "order: by name")
    ctx.check([u.key for u in cs["v"].flat] == want, "order: in the vector")


def h_bounds(ctx):
    """bounds gained through chains of monomial equalities:  the least set closed
    under  'if every other variable is bounded that way, so is this one'"""
    names = "xyzw"
    vs = [X(n) for n in names]
    ineqs, eqs = [], []
    nb = ctx.choice("nb", 3)
    for i in range(nb):
        k = ctx.choice("bv%d" % i, 4)
        if ctx.boolean("up%d" % i):
            ineqs.append((vs[k] <= 2, (names[k], "upper")))
        else:
            ineqs.append((vs[k] >= 2, (names[k], "lower")))
    rules = []
    es = []
    for i in range(2):
        a, b, c = [(0, 1, 2), (1, 2, 3), (2, 3, 0), (0, 3, 1)][ctx.choice("eq%d" % i, 4)]
        e1 = (1, -1)[ctx.choice("sg%d" % i, 2)]
        eqs.append(vs[a]*vs[b]**e1 == ctx.pos("k%d" % i)*vs[c])
        exps = {names[a]: 1, names[b]: e1, names[c]: -1}
        for k, e in exps.items():
            for d in ("upper", "lower"):
                need = set()
                for o, eo in exps.items():
                    if o != k:
                        same = (eo > 0) == (e > 0)
                        # k^e = prod o^-eo: k is bounded above when every o is bounded so
                        od = d if not same else ("lower" if d == "upper" else "upper")
                        need.add((o, od))
                rules.append(((k, d), need))
    bounded = {b for _, b in ineqs}
    more = True
    while more:
        more = False
        for b, need in rules:
            if b not in bounded and need <= bounded:
                bounded.add(b)
                more = True
    order = ctx.boolean("order")
    cons = [c for c, _ in ineqs]
    cs = ConstraintSet(cons + eqs if order else [eqs, ConstraintSet(cons)])
    ctx.check({(k.name, d) for k, d in cs.bounded} == bounded, "bounds: the least closed set")


def h_partial(ctx):
    "vectors of which only some elements have values"
    w = World(ctx)
    v, x = VectorVariable(3, "v"), X("x")
    a = [ctx.pos("a%d" % i) for i in range(3)]
    fixed = [i for i in range(3) if ctx.boolean("fix%d" % i)]
    nan = float("nan")
    whole = [a[i] if i in fixed else nan for i in range(3)]
    if ctx.concrete:
        whole = np.array([float(u) for u in whole])
    else:
        arr = objs(ctx, 3)
        arr[:] = whole
        whole = arr
    how = ctx.choice("how", 3)
    subs = {v: whole} if how == 0 else {v[i]: a[i] for i in fixed}
    con = v >= x
    w.leaves = list(con.flat) if hasattr(con, "flat") else list(con)
    w.vks = {el.key for el in v} | {x.key}
    w.subs = {v[i].key: a[i] for i in fixed}
    inner = ConstraintSet([con], subs if how < 2 else None)
    top = ctx.choice("top", 3)
    cs = inner if top == 0 else ConstraintSet([inner], subs if how == 2 else None) if top == 1 \
        else Model(x**-1, [inner], substitutions=subs if how == 2 else None)
    if top == 0 and how == 2:
        cs = ConstraintSet(inner, subs)
    verify(ctx, cs, w, "partial")
    for i in range(3):
        for d in ("upper", "lower"):
            if i not in fixed and (v[i].key, d) in cs.bounded:
                ctx.check(any((v[i].key, d) in leaf.bounded for leaf in w.leaves),
                          "partial: free elements are not bounded by the others' values")


def h_cost(ctx):
    "variables of the cost, with and without values, alone in it or not"
    w = World(ctx)
    x, y = X("x"), X("y")
    v1, v2 = ctx.pos("v1"), ctx.pos("v2")
    c1, c2 = X("c1", v1), X("c2", v2)
    free = X("c3")
    con = [x >= y, y*c2 >= 1] if ctx.boolean("shared") else [x >= y]
    w.leaves, w.vks = con, {k.key for k in (x, y, c1, c2, free)}
    w.subs = {c1.key: v1, c2.key: v2}
    n = ctx.choice("given", 4)
    new = ctx.pos("new")
    subs = [None, {free: new}, {free: new, y: new, x: new}, {c1: new, y: new}][n]
    for k in subs or {}:
        w.subs[k.key] = new
    cls = (Model, CostedConstraintSet)[ctx.choice("cls", 2)]
    cs = cls(c1*x + c2*free, con, subs)
    for outer in range(ctx.choice("outer", 2)):
        cs = ConstraintSet([cs])
    verify(ctx, cs, w, "cost")


HARNESSES = [
    Harness("partial", h_partial, "a vector of 3, any elements fixed, in 3 ways, in 3 containers"),
    Harness("cost", h_cost, "a cost of 4 variables, 4 sets of substitutions, 2 classes"),
    Harness("nest", h_nest, "1-2 constraints around a container of 2 (of 9 kinds), constraints of 6 kinds, "
            "in 4 kinds of top container", max_paths=20000),
    Harness("deep", h_deep, "3 levels, 9 x 9 kinds of containers"),
    Harness("override", h_override, "2 levels of substitutions"),
    Harness("bad", h_bad, "6 non-constraints, 4 positions, 5 wrappings, 3 classes"),
    Harness("uninit", h_uninit, "uninitialized and empty sets"),
    Harness("names", h_names, "scalars and a vector of 3"),
    Harness("view", h_view, "0-2 Vectorizes of sizes 1-3 around a scalar and a vector of 1-2, every index"),
    Harness("order", h_order, "vectors of 12, matrices of 2x11"),
    Harness("bounds", h_bounds, "2 monomial equalities over 4 variables, up to 2 bounds, any directions",
            max_paths=20000),
]
