"Scoped environments restore the surrounding state"
import numpy as np
import gpkit
from .lib import *
from .gplib import arr
from gpkit import Model, Vectorize, NamedVariables
from gpkit.nomials import NomialArray
from gpkit.constraints.set import ConstraintSet
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.relax import ConstraintsRelaxed, ConstraintsRelaxedEqually, ConstantsRelaxed

NOTE = ("scope kinds, nesting, reuse of one scope object, where an exception is raised and where it is caught are "
        "symbolic choices; vector lengths, model names, values and coefficients are solver variables (names and lengths "
        "that may coincide are compared by the solver).")


def booms(i):
    "errors of different kinds"
    kinds = [Boom, KeyError, TypeError, KeyboardInterrupt, GeneratorExit, ValueError, AssertionError,
             AttributeError, ZeroDivisionError]
    return kinds[i % len(kinds)]("boom")


def ours(exc):
    "whether we raised it"
    return isinstance(exc, Boom) or exc.args == ("boom",)


class Boom(Exception):
    "raised by the harness inside scopes"


def state():
    "what the scopes govern"
    return (bool(SignomialsEnabled), Vectorize.vectorization, NamedVariables.lineage,
            {k: list(map(id, v)) for k, v in NamedVariables.namedvars.items()})


def same(ctx, before, tag):
    "is the state the one recorded before?"
    now = state()
    ctx.check(now[0] == before[0], tag+": signomials as before")
    for i, name in ((1, "vectorization"), (2, "lineage")):
        ctx.check(len(now[i]) == len(before[i]), "%s: %s as deep as before" % (tag, name))
    for a, b in zip(now[1], before[1]):
        ctx.check(a is b, tag+": vectorization as before")
    for a, b in zip(now[2], before[2]):
        ctx.check(a is b, tag+": lineage as before")
    ctx.check(len(now[3]) == len(before[3]), tag+": named variables as before")
    ctx.check(sorted(map(len, now[3].values())) == sorted(map(len, before[3].values())),
              tag+": named variables as before")


class Program:
    "nested scopes, made up as it goes"
    def __init__(self, ctx, steps, reuse):
        self.ctx, self.left, self.n = ctx, steps, 0
        self.named = []  # (outer lineage, name, times entered)
        self.own = {}
        if reuse:
            self.len, self.name = ctx.pos("len"), ctx.pos("name")
            self.own = {"S": SignomialsEnabled(), "V": Vectorize(self.len), "N": NamedVariables(self.name)}

    def scope(self, kind):
        "a scope of this kind, and the length or name it has"
        i = self.n
        if self.own:
            return self.own[kind], {"S": None, "V": self.len, "N": self.name}[kind]
        if kind == "S":
            return SignomialsEnabled(), None
        arg = self.ctx.pos("arg%d" % i)
        return (Vectorize if kind == "V" else NamedVariables)(arg), arg

    def number(self, lineage, name):
        "how many models of this name and lineage there were"
        ctx, num = self.ctx, 0
        for olineage, oname in self.named:
            if len(olineage) == len(lineage) and ctx.holds(oname == name):
                if all(ctx.holds(a[0] == b[0]) and a[1] == b[1] for a, b in zip(olineage, lineage)):
                    num += 1
        self.named.append((lineage, name))
        return num

    def inside(self, before, kind, arg, got, num):
        "is the effect of the innermost scope as it should be?"
        ctx, now = self.ctx, state()
        ctx.check(now[0] == (before[0] or kind == "S"), "inside: signomials")
        vec = ((arg,) if kind == "V" else ()) + before[1]
        ctx.check(len(now[1]) == len(vec), "inside: number of dimensions")
        for a, b in zip(now[1], vec):
            ctx.eq(a, b, "inside: dimension")
        lineage = before[2] + (((arg, num),) if kind == "N" else ())
        ctx.check(len(now[2]) == len(lineage), "inside: depth of the lineage")
        for a, b in zip(now[2], lineage):
            ctx.eq(a[0], b[0], "inside: name in the lineage")
            ctx.check(a[1] == b[1], "inside: number in the lineage")
        if kind == "N" and got is not None:
            ctx.check(len(got[0]) == len(lineage) and got[0] is NamedVariables.lineage, "inside: lineage given")
            ctx.check(got[1] == [], "inside: no named variables yet")
            ctx.check(NamedVariables.namedvars[NamedVariables.lineage] is got[1], "inside: named variables given")

    def block(self, depth):
        "up to two scopes, with what is in them"
        ctx = self.ctx
        for _ in range(2):
            if not self.left or depth > 3:
                return
            acts = ["end", "raise", "S", "V", "N"]
            self.n += 1
            i = self.n
            act = acts[ctx.choice("act%d" % i, len(acts))]
            if act == "end":
                return
            if act == "raise":
                raise booms(ctx.choice("boom%d" % i, 5))
            self.left -= 1
            before = state()
            env, arg = self.scope(act)
            num = self.number(before[2], arg) if act == "N" else None
            try:
                with env as got:
                    self.inside(before, act, arg, got, num)
                    mid = state()
                    self.block(depth+1)
                    same(ctx, mid, "after inner scopes")
            except BaseException as exc:  # pylint: disable=broad-except
                if not ours(exc):
                    raise
                same(ctx, before, "after an exception")
                if not ctx.boolean("catch%d" % i):
                    raise
            same(ctx, before, "after a scope")


def h_nest(ctx, steps=3, reuse=False):
    before = state()
    prog = Program(ctx, steps, reuse)
    try:
        prog.block(1)
    except BaseException as exc:  # pylint: disable=broad-except
        if not ours(exc):
            raise
        pass
    same(ctx, before, "at the end")


KINDS = ["S", "V2", "V3", "A", "B"]


def enter(kind):
    "a scope with concrete length or name"
    if kind == "S":
        return SignomialsEnabled()
    if kind[0] == "V":
        return Vectorize(int(kind[1]))
    return NamedVariables(kind)


class Effects:
    "checks everything created against the scopes around it"
    def __init__(self, ctx):
        self.ctx, self.n, self.counts, self.owned = ctx, 0, {}, {}

    def create(self, stack, lineage):
        "creates some of everything"
        ctx, i = self.ctx, self.n
        self.n += 1
        vec = tuple(int(k[1]) for k in reversed(stack) if k[0] == "V")
        signomials = "S" in stack
        c = ctx.pos("c%d" % i)
        x = Variable("x%d" % i)
        v = VectorVariable(2, "v%d" % i, "m")
        made = []
        for var, shape in ((x, vec), (v, (2,)+vec)):
            ctx.check((getattr(var, "shape", None) or ()) == shape, "created: shape")
            els = list(np.array(var, dtype=object).flatten()) if shape else [var]
            ctx.check(len({el.key for el in els}) == int(np.prod(shape)), "created: every element its own variable")
            for el in els:
                ctx.check(el.key.lineage == (lineage or None), "created: lineage of a variable")
                ctx.check(el.key.shape == (shape or None), "created: shape of an element's key")
                made.append(el.key)
            if shape:
                ctx.check(var.key.lineage == (lineage or None) and var.key.shape == shape, "created: vector's key")
                ctx.check(all(el.key.veckey is var.key or el.key.veckey == var.key for el in els),
                          "created: elements know their vector")
        self.owned.setdefault(lineage, []).extend(made)
        a = x.flatten()[0] if vec else x
        b = v.flatten()[0]/gpkit.units("m")
        con = a + c*b <= 1
        ctx.check(tuple(con.lineage or ()) == lineage, "created: lineage of a constraint")
        try:
            n = a - c*b
            ctx.check(signomials, "created: signomial outside of its scope")
            ctx.eq(value(n, {a.key: 3, b.vks.copy().pop(): 5}), 3 - 5*c, "created: difference")
        except TypeError:
            ctx.check(not signomials, "created: signomial inside of its scope")
        try:
            neg = (a >= 1 - c*b) if signomials else None
            ok = neg is not None
        except TypeError:
            ok = False
        ctx.check(ok == signomials, "created: signomial constraint")
        if lineage:
            names = NamedVariables.namedvars[lineage]
            ctx.check(set(el.key for el in names) == set(self.owned[lineage]), "created: variables of this model")
        return made

    def run(self, depth, stack, lineage):
        "creates here, in a scope, and here again"
        ctx = self.ctx
        self.create(stack, lineage)
        if depth:
            kind = KINDS[ctx.choice("kind%d" % self.n, len(KINDS))]
            inner = lineage
            if kind in "AB":
                num = self.counts.get((lineage, kind), 0)
                self.counts[(lineage, kind)] = num + 1
                inner = lineage + ((kind, num),)
            with enter(kind):
                self.run(depth-1, stack+[kind], inner)
            self.create(stack, lineage)


def h_effects(ctx, depth=3):
    Effects(ctx).run(depth, [], ())


def h_models(ctx):
    "models made by setup methods, some of which fail"
    tally = {"n": 0}
    log = []
    fails = ctx.choice("fails", 5)
    vectorized = ctx.boolean("vectorized")
    signomials = ctx.boolean("signomials")
    c = ctx.pos("c")

    def step():
        tally["n"] += 1
        if tally["n"] == fails:
            raise booms(fails + 4*vectorized)

    class Inner(Model):
        def setup(self):
            step()
            z = self.z = Variable("z")
            step()
            log.append(("in", NamedVariables.lineage, z))
            return [z >= c]

    class Outer(Model):
        def setup(self):
            y = self.y = Variable("y")
            with SignomialsEnabled():
                if vectorized:
                    with Vectorize(2):
                        self.inner = Inner()
                else:
                    self.inner = Inner()
                con = 1 - y <= c
            w = self.w = Variable("w")
            log.append(("out", NamedVariables.lineage, y, w))
            self.cost = w
            return [con, w >= y, self.inner]
    before = state()
    m1 = m2 = None
    with (SignomialsEnabled() if signomials else NamedVariables("top")):
        mid = state()
        try:
            m1 = Outer()
        except BaseException as exc:  # pylint: disable=broad-except
            if not ours(exc):
                raise
            ctx.check(fails in (1, 2), "models: only failing ones fail")
        same(ctx, mid, "models: after the first")
        try:
            m2 = Outer()
        except BaseException as exc:  # pylint: disable=broad-except
            if not ours(exc):
                raise
            ctx.check(fails in ((1, 2) if m1 is None else (3, 4)), "models: only failing ones fail")
        same(ctx, mid, "models: after the second")
    same(ctx, before, "models: at the end")
    top = () if signomials else (("top", 0),)
    for i, m in enumerate([m1, m2]):
        if m is None:
            ctx.check(fails in ((1, 2), (3, 4))[i], "models: others are made")
            continue
        ctx.check(m.lineage == top + (("Outer", i),), "models: lineage")
        ctx.check(m.unique_varkeys == {m.y.key, m.w.key}, "models: its own variables")
        zs = list(m.inner.z) if vectorized else [m.inner.z]
        ctx.check(m.inner.unique_varkeys == {z.key for z in zs}, "models: its own variables, inner")
        ctx.check(len(zs) == (2 if vectorized else 1), "models: vectorized")
        for z in zs:
            ctx.check(z.key.lineage[:-1] == m.lineage and z.key.lineage[-1][0] == "Inner", "models: lineage, inner")
        ctx.check(m.inner.lineage == zs[0].key.lineage, "models: lineage, inner model")
    if m1 is not None and m2 is not None:
        ctx.check(not set(m1.vks) & set(m2.vks), "models: two of them share no variables")


def h_library(ctx):
    "operations which use scopes themselves, inside other scopes"
    kinds = ["S", "A", "V2"]
    outer = [k for k in kinds if ctx.boolean("in"+k)]
    ops = ["tight", "tight-signomial", "all", "equally", "constants", "bounded", "loose", "fails"]
    op = ops[ctx.choice("op", len(ops))]
    x, y = X("x"), X("y")
    a, xv, yv = ctx.pos("a"), ctx.pos("xv"), ctx.pos("yv")
    inside = "V2" not in outer and ctx.boolean("inside")  # where the constant is made
    const = None if inside else X("k", a)
    before = state()
    envs = [enter(k) for k in outer]
    for env in envs:
        env.__enter__()
    mid = state()
    if op.startswith("tight") or op == "fails":
        if op == "tight-signomial":
            with SignomialsEnabled():
                con = x >= a - y
        else:
            con = x >= a*y
        cset = Tight([con])
        same(ctx, mid, "library: construction")
        if op != "tight-signomial":
            res = {"variables": gpkit.keydict.KeyDict({x: xv, y: yv})}
        else:  # keep clear of zero
            ctx.assume(yv < a)
            res = {"variables": gpkit.keydict.KeyDict({x: xv, y: yv})}
        if op == "fails":
            res["variables"] = None
        try:
            cset.process_result(res)
            ctx.check(op != "fails", "library: that should fail")
        except (TypeError, AttributeError):
            ctx.check(op == "fails", "library: this should not fail")
    elif op == "loose":
        con = x >= a*y
        cset = Loose([con])
        res = {"variables": gpkit.keydict.KeyDict({x: xv, y: yv}),
               "sensitivities": {"constraints": {con: xv}}}
        cset.process_result(res)
    else:
        const = const or X("k", a)
        m = Model(x, [x >= const*y, y >= 1])
        mid = state()
        made = {"all": ConstraintsRelaxed, "equally": ConstraintsRelaxedEqually, "constants": ConstantsRelaxed,
                "bounded": Bounded}[op](m)
        own = {x.key, y.key}
        vec = (2,) if "V2" in outer else ()
        if op == "bounded":
            ctx.check(set(made.vks) == own | {const.key}, "library: only the model's variables are bounded")
        elif op == "constants":
            freed, = made.freedvars
            relaxvar, = made.relaxvars
            ctx.check(freed.key == const.key, "library: the constant itself is freed")
            ctx.check(len(set(made.vks)) == 5 and set(made.vks) > own | {const.key, relaxvar.key},
                      "library: the relaxation and the original value are new variables")
            ctx.check(list(made.substitutions.values()) == [a] if ctx.concrete else len(made.substitutions) == 1,
                      "library: the original value is kept")
    same(ctx, mid, "library: "+op)
    try:
        x - y
        ctx.check("S" in outer, "library: signomials afterwards only where they were enabled")
    except TypeError:
        ctx.check("S" not in outer, "library: signomials still enabled afterwards")
    for env in reversed(envs):
        env.__exit__(None, None, None)
    same(ctx, before, "library: at the end")


SHAPES = [(), (2,), (2, 2), (3, 2)]
VECS = [(), (2,), (3,), (2, 2), (3, 2)]


def h_values(ctx):
    "every element of a vectorized variable gets the value it is given"
    shape = SHAPES[ctx.choice("shape", len(SHAPES))]
    vec = VECS[ctx.choice("vec", len(VECS))]
    full = shape + vec
    kinds = ["own", "full", "scalar", "link"]
    kind = kinds[ctx.choice("kind", len(kinds))]
    aslist = ctx.boolean("aslist")
    units = ctx.boolean("units")
    keyword = ctx.boolean("keyword")
    if kind == "scalar" and shape or kind == "full" and not vec:
        ctx.assume(False)
    if kind == "full" and shape and len(set(full)) < len(full):
        pass  # the array has every dimension: nothing is repeated
    if units and kind == "link":
        ctx.assume(False)
    vshape = {"own": shape, "full": full, "scalar": (), "link": full}[kind]
    n = int(np.prod(vshape))
    vals = [ctx.pos("val%d" % i) for i in range(n)]
    nested = np.empty(vshape, dtype=object) if not ctx.concrete else np.empty(vshape)
    for i, idx in enumerate(np.ndindex(*vshape)):
        nested[idx] = vals[i]
    if not vshape:
        given = vals[0]
    elif aslist:
        given = nested.tolist()
    else:
        given = nested
    if units:  # in feet
        if isinstance(given, list):
            ctx.assume(False)
        given = given*gpkit.units("ft")
    if kind == "link":
        arrgiven = given
        given = lambda c: arrgiven
    envs = [Vectorize(d) for d in reversed(vec)]
    for env in envs:
        env.__enter__()
    kwargs = {"value": given} if keyword else {}
    args = ("x", "m") if keyword else ("x", given, "m")
    if shape:
        x = VectorVariable(shape, *args, **kwargs)
    else:
        x = Variable(*args, **kwargs)
    for env in reversed(envs):
        env.__exit__(None, None, None)
    els = {(): x} if not full else {idx: x[idx] for idx in np.ndindex(*full)}
    ctx.check((getattr(x, "shape", None) or ()) == full, "values: shape")
    fac = 0.3048 if units else 1.0
    z = X("z", "m")
    cset = ConstraintSet([z >= el for el in els.values()])
    for idx, el in els.items():
        if kind == "link":
            fn = cset.substitutions[el.key]
            got, want = fn({}), nested[idx]
        else:
            got = cset.substitutions[el.key]
            want = nested[idx[:len(shape)]] if kind == "own" else (nested[()] if kind == "scalar" else nested[idx])
            if kind == "scalar":
                want = vals[0]
        ctx.eq(got, want*fac, "values: each element's")


HARNESSES = [
    Harness("nest", h_nest, "3 scopes of symbolic lengths and names, depth <= 3, 5 kinds of exceptions anywhere", max_paths=20000),
    Harness("reuse", lambda ctx: h_nest(ctx, 3, True), "3 scopes, one object of each kind used for all", max_paths=20000),
    Harness("effects", h_effects, "3 nested scopes, creations before, inside and after each"),
    Harness("models", h_models, "2 models with submodels, exceptions at 4 points"),
    Harness("library", h_library, "8 operations inside any of 3 scopes"),
    Harness("values", h_values, "4 own shapes x 5 vectorizations, any values"),
    Harness("nest4", lambda ctx: h_nest(ctx, 4), "4 scopes", tier="thorough", max_paths=200000, budget=600),
    Harness("reuse5", lambda ctx: h_nest(ctx, 5, True), "5 scopes, one object of each kind used for all",
            tier="thorough", max_paths=200000, budget=600),
]
