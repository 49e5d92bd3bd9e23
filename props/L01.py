"Computed variables receive their function's value and derivative"
import itertools
import numpy as np
import gpkit
from .gplib import *
from .G05 import answer, result_of
from gpkit import Model, VectorVariable
from gpkit.small_classes import Quantity
from gpkit.constraints.gp import GeometricProgram

NOTE = ("derivatives are compared with those of an independent forward-mode differentiation of the same functions; "
        "solver answers are arbitrary symbolic points")
FT = 0.3048
PERMS = list(itertools.permutations(range(3)))


class Dual:
    "a number and its partial derivatives"
    def __init__(self, v, d=None):
        self.v, self.d = v, d or {}

    def _new(self, v, *parts):
        d = {}
        for factor, other in parts:
            for k, g in other.d.items():
                d[k] = d.get(k, 0) + factor*g
        return Dual(v, d)

    def __add__(self, o):
        o = o if isinstance(o, Dual) else Dual(o)
        return self._new(self.v+o.v, (1, self), (1, o))

    def __mul__(self, o):
        o = o if isinstance(o, Dual) else Dual(o)
        return self._new(self.v*o.v, (o.v, self), (self.v, o))

    def __truediv__(self, o):
        o = o if isinstance(o, Dual) else Dual(o)
        return self._new(self.v/o.v, (1/o.v, self), (-self.v/o.v**2, o))

    def __pow__(self, n):
        return self._new(self.v**n, (n*self.v**(n-1), self))

    __radd__, __rmul__ = __add__, __mul__

    def __rtruediv__(self, o):
        return Dual(o)/self


def ops(k):
    "functions of two inputs"
    return [lambda p, q: p*q, lambda p, q: p+k*q, lambda p, q: p/q, lambda p, q: k*p**2+q, lambda p, q: k/(p+q),
            lambda p, q: k*p, lambda p, q: 3*p*q**2]


def solved(ctx, m, point, tag):
    """the result of the model's program for arbitrary duals; {name: sensitivity}
    the model's last constraint is x >= the product of all the fixed variables"""
    gp = m.gp(checkbounds=False)
    names = {vk: vk for vk in gp.varlocs}
    la = [1] + [ctx.pos("la_%s%d" % (tag, i)) for i in range(len(gp.k)-1)]
    return gp, result_of(gp, answer(ctx, gp, names, point, False, la)), la


def h_dag(ctx):
    "links to constants and links, in any order"
    x = X("x")
    names = PERMS[ctx.choice("names", 6)]
    L = [X("pqr"[names[i]]) for i in range(3)]
    va, vb, k = ctx.pos("a"), ctx.pos("b"), ctx.pos("k")
    a, b = X("a", va), X("b", vb)
    pool = [a, b]
    f1 = ops(k)[ctx.choice("f", 7)]
    f2 = ops(k)[1]
    ins = [[(a, b), (b, a), (a, a)][ctx.choice("in0", 3)],
           [(a, L[0]), (L[0], b), (L[0], L[0])][ctx.choice("in1", 3)],
           [(L[1], L[0]), (L[1], b), (L[0], a), (L[1], L[1])][ctx.choice("in2", 4)]]
    fs = [f2, f1, lambda p, q: p*q]

    def linkfn(i):
        return lambda c: fs[i](c[ins[i][0]], c[ins[i][1]])
    order = PERMS[5*ctx.choice("order", 2)]     # names matter to the order in which links are found, too
    m = Model(x, [x >= L[0]*L[1]*L[2]*a*b], {L[i]: linkfn(i) for i in order})
    want = {a.key: Dual(va, {a.key: 1}), b.key: Dual(vb, {b.key: 1})}
    for i in range(3):
        want[L[i].key] = fs[i](want[ins[i][0].key], want[ins[i][1].key])
    vx = ctx.pos("x")
    gp, res, la = solved(ctx, m, {x.key: vx}, "0")
    for v in L+[a, b]:
        ctx.check(v.key in gp.substitutions, "dag: every link has a value")
        ctx.eq(gp.substitutions[v.key], want[v.key].v, "dag: the function's value")
        ctx.eq(res["variables"][v], want[v.key].v, "dag: the solution has it")
        ctx.eq(res["constants"][v], want[v.key].v, "dag: as a constant")
    sens = res["sensitivities"]["variables"]
    for c, vc in ((a, va), (b, vb)):
        total = la[1]
        for v in L:
            w = want[v.key]
            total = total + la[1]*w.d.get(c.key, 0)*vc/w.v
        if c.key in sens:
            ctx.eq(sens[c], total, "dag: the chain rule")
        else:
            ctx.eq(0, total, "dag: the chain rule")
    for v in L:
        ctx.check(v.key not in sens, "dag: links are not independent")


def h_update(ctx):
    "links and constants are replaced between solves"
    x = X("x")
    flip = ctx.boolean("flip")
    p, q = (X("p"), X("q")) if flip else (X("q"), X("p"))
    va = ctx.pos("a0")
    k = ctx.pos("k")
    a = X("a", va)
    m = Model(x, [x >= a*p*q], {p: lambda c: c[a]**2, q: lambda c: k*c[p]})
    state = {"a": va, "p": lambda s: s["a"]**2, "q": lambda s: k*s["p"]}
    for step in range(3):
        if step:
            kind = ctx.choice("change%d" % step, 6)
            n = ctx.pos("n%d" % step)
            if kind == 0:
                m.substitutions[a] = n
                state["a"] = n
            elif kind == 1:
                m.substitutions[p] = n
                state["p"] = n
            elif kind == 2:
                m.substitutions[q] = n
                state["q"] = n
            elif kind == 3:
                m.substitutions[p] = lambda c, n=n: n*c[a]
                state["p"] = lambda s, n=n: n*s["a"]
            elif kind == 4:
                m.substitutions[q] = lambda c, n=n: c[a]+c[p]*n
                state["q"] = lambda s, n=n: s["a"]+s["p"]*n
            elif "function" not in str(type(state["p"])):
                m.substitutions[p] = lambda c: c[a]**2
                state["p"] = lambda s: s["a"]**2
        s = {}
        for name in "apq":
            s[name] = state[name](s) if callable(state[name]) else state[name]
        gp, res, la = solved(ctx, m, {x.key: ctx.pos("x%d" % step)}, str(step))
        for name, v in (("a", a), ("p", p), ("q", q)):
            ctx.eq(gp.substitutions[v.key], s[name], "update: current inputs and functions")
            ctx.eq(res["variables"][v], s[name], "update: current inputs and functions")
        ctx.check(callable(m.substitutions[p]) == callable(state["p"])
                  and callable(m.substitutions[q]) == callable(state["q"]), "update: the model keeps its functions")
        d, free = {}, [name for name in "apq" if not callable(state[name])]
        for name in "apq":
            d[name] = state[name](d) if name not in free else Dual(s[name], {name: 1})
        sens = res["sensitivities"]["variables"]
        for name, v in (("a", a), ("p", p), ("q", q)):
            ctx.check(name in free or v.key not in sens, "update: links are not independent")
            if name not in free:
                continue
            total = sum(la[1]*d[o].d.get(name, 0)*s[name]/s[o] for o in "apq")
            ctx.eq(sens[v] if v.key in sens else 0, total, "update: the chain rule, of the present functions")


def h_units(ctx):
    "inputs and values are in the variables' own units"
    x = X("x", "m")
    va, k = ctx.pos("a"), ctx.pos("k")
    given = ctx.choice("given", 3)
    a = X("a", "m")
    b = X("b", ["ft", "m", None][ctx.choice("unit", 3)])
    dimless = b.units is None or not hasattr(b.units, "units") or not b.key.units
    inft = b.key.units and ctx.choice("unit", 3) == 0
    ret = ctx.choice("returns", 7)
    u = gpkit.ureg
    fn = [lambda c: c[a]*k, lambda c: c[a]*k*u.m, lambda c: c[a]*k*u.ft, lambda c: c[a]*k*gpkit.units.m,
          lambda c: Quantity(c[a]*k, "dimensionless"), lambda c: c(a)*k, lambda c: (k*c(a)).to(u.ft)][ret]
    val = [va, Quantity(va, u.m), Quantity(va*100, u.cm)][given]
    m = Model(x, [x >= a*b if dimless else x >= a+b], {a: val, b: fn})
    compatible = ret == 0 or (ret == 4) == bool(dimless)
    try:
        gp = m.gp(checkbounds=False)
    except gpkit.DimensionalityError:
        ctx.check(not compatible, "units: compatible values are converted")
        return
    ctx.check(compatible, "units: incompatible values are refused")
    if not compatible:
        return
    metre = 1/FT if inft else 1
    base = {0: 1, 1: metre, 2: 1 if inft else FT, 3: metre, 4: 1, 5: metre, 6: metre}[ret]
    if ret in (0, 5, 6):
        grad = b.key.descr.get("gradients", {})
        ctx.check(set(grad) == {a.key}, "units: derivative")
        if a.key in grad:
            ctx.eq(grad[a.key], k*base, "units: derivative")
    ctx.eq(gp.substitutions[a.key], va, "units: inputs are in their own units")
    ctx.eq(gp.substitutions[b.key], va*k*base, "units: the value in its own units")
    # and used as such
    consts = sum(cc for cc in gp.hmaps[1].values())
    wanted = va*va*k*base if dimless else va+va*k*base*(FT if inft else 1)
    ctx.eq(consts, wanted, "units: the program uses them")


def h_vector(ctx):
    "vectors computed at once or by element"
    x = X("x")
    k = ctx.pos("k")
    vs = [ctx.pos("s0"), ctx.pos("s1")]
    va = ctx.pos("a")
    a = X("a", va)
    names = PERMS[ctx.choice("names", 6)]
    s = VectorVariable(2, "s")
    w = X("w")
    kind = ctx.choice("kind", 8)
    tl = [lambda c: [c[a]*k, c[a]**2], lambda c: np.array([c[s[1]], c[s[0]]*c[a]]), lambda c: c[s]*c[a],
          lambda c: [c[s][0]+c[a], c[s][1]*k], lambda c: (c[a]*k, c[s[1]]+c[a]),
          lambda c: c[s]**2, lambda c: [c[w], c[w]*c[a]], lambda c: [c[a], 2*c[s[0]]]][kind]
    A, S = Dual(va, {"a": 1}), [Dual(vs[0], {"s0": 1}), Dual(vs[1], {"s1": 1})]
    W = A*k
    T = [lambda: [A*k, A**2], lambda: [S[1], S[0]*A], lambda: [S[0]*A, S[1]*A], lambda: [S[0]+A, S[1]*k],
         lambda: [A*k, S[1]+A], lambda: [S[0]**2, S[1]**2], lambda: [W, W*A], lambda: [A, 2*S[0]]][kind]()
    t = VectorVariable(2, "tuv"[names[0]], tl)
    how = ctx.choice("u is", 3)
    un = "tuv"[names[1]]
    late = {a: va, s: arr(ctx, vs), w: lambda c: k*c[a]}
    if how == 0:        # by element, of the other vector's elements
        u = VectorVariable(2, un)
        late.update({u[0]: lambda c: c[t[1]], u[1]: lambda c: c[t[0]]*c[t[1]]})
        U = [T[1], T[0]*T[1]]
    elif how == 1:      # mixed with a number
        n = ctx.pos("n")
        u = VectorVariable(2, un, [n, lambda c: c[t[0]]*k])
        U = [Dual(n, {"u0": 1}), T[0]*k]
    else:
        u = VectorVariable(2, un, lambda c: [c[t[0]]*c[a], c[t[1]]])
        U = [T[0]*A, T[1]]
    m = Model(x, [x >= a*s.prod()*t.prod()*u.prod()*w], late)
    gp, res, la = solved(ctx, m, {x.key: ctx.pos("x")}, "0")
    for i in range(2):
        ctx.eq(gp.substitutions[t[i].key], T[i].v, "vector: each element its own value")
        ctx.eq(gp.substitutions[u[i].key], U[i].v, "vector: each element its own value")
        ctx.eq(res["variables"][t][i], T[i].v, "vector: solution")
        ctx.eq(res["variables"][u[i]], U[i].v, "vector: solution")
    ctx.eq(gp.substitutions[w.key], W.v, "vector: scalars")
    sens = res["sensitivities"]["variables"]
    for tag, var, val in (("a", a, va), ("s0", s[0], vs[0]), ("s1", s[1], vs[1])):
        total = la[1]
        for e in T+U+[W]:
            total = total + la[1]*e.d.get(tag, 0)*val/e.v
        if var.key in sens:
            ctx.eq(sens[var], total, "vector: the chain rule")
        else:
            ctx.eq(0, total, "vector: the chain rule")


def h_quantities(ctx):
    "functions of quantities, of vectors and scalars in several units"
    x = X("x", "m")
    k, vh, va = ctx.pos("k"), ctx.pos("h"), ctx.pos("a")
    vs = [ctx.pos("s0"), ctx.pos("s1")]
    h, a = X("h", "ft", vh), X("a", "m", va)
    s = VectorVariable(2, "s", "ft", vs if not ctx.concrete else np.array([float(v) for v in vs]))
    H, A, S = Dual(vh, {"h": 1}), Dual(va, {"a": 1}), [Dual(vs[0], {"s0": 1}), Dual(vs[1], {"s1": 1})]
    u = gpkit.ureg
    tl, T = [(lambda c: [k*c(h), k*c(a)], [k*H*FT, k*A]),
             (lambda c: (c(a), c(h)*2), [A, 2*H*FT]),
             (lambda c: np.array([1., 2.])*c(h), [H*FT, 2*H*FT]),
             (lambda c: [c[a]*k, c(h)], [A*k, H*FT]),
             (lambda c: [c[h]*k, c[a]], [H*k, A]),
             (lambda c: c(s)*k, [S[0]*(k*FT), S[1]*(k*FT)]),
             (lambda c: [c(s[1]), c(s)[0] + c(h)], [S[1]*FT, S[0]*FT + H*FT]),
             (lambda c: [(c(a)*k).to(u.ft), c(a) + c(h)],
              [A*k, A + H*FT])][ctx.choice("kind", 8)]
    unit = ctx.choice("unit", 2)    # the vector's
    t = VectorVariable(2, "t", "m", tl)
    w = X("w", ["m", "ft"][unit])   # and a function of it
    which = ctx.choice("of", 3)
    fn, W = [(lambda c: c(t[0]) + c(h), T[0] + H*FT), (lambda c: c(t)[1]*k, T[1]*k),
             (lambda c: c(a)*k, A*k)][which]
    scale = 1/FT if unit else 1
    m = Model(x, [x >= a*h*s.prod()*t.prod()*w/gpkit.units("m**2*ft**3")/gpkit.units(["m", "ft"][unit])], {w: fn})
    gp, res, la = solved(ctx, m, {x.key: ctx.pos("x")}, "0")
    for i in range(2):
        ctx.eq(gp.substitutions[t[i].key], T[i].v, "quantities: each element in its own units")
    ctx.eq(gp.substitutions[w.key], W.v*scale, "quantities: the value in its own units")
    sens = res["sensitivities"]["variables"]
    for tag, var, val in (("a", a, va), ("h", h, vh), ("s0", s[0], vs[0]), ("s1", s[1], vs[1])):
        total = la[1]
        for e in T+[W]:
            total = total + la[1]*e.d.get(tag, 0)*val/e.v
        ctx.eq(sens[var] if var.key in sens else 0, total, "quantities: the chain rule")


def h_samename(ctx):
    "vectors of one name, each computed at once, in several models"
    x = X("x")
    va, vb = ctx.pos("a"), ctx.pos("b")
    a, b = X("a", va), X("b", vb)
    n, p = [(2, 2), (2, 3), (3, 2)][ctx.choice("lens", 3)]
    fs = [lambda c: c[a], lambda c: c[b]**2, lambda c: c[a]*c[b], lambda c: c[a]+2*c[b]]
    ds = [Dual(va, {"a": 1}), Dual(vb, {"b": 1})**2, Dual(va, {"a": 1})*Dual(vb, {"b": 1}),
          Dual(va, {"a": 1})+2*Dual(vb, {"b": 1})]
    i, j = ctx.choice("f", 4), ctx.choice("g", 4)

    def fn(f, m):
        return lambda c: [f(c)*(l+1) for l in range(m)]
    lins = [((("A", 0),), (("A", 1),)), ((("B", 0),), (("A", 0),)), (None, (("A", 0),))][ctx.choice("models", 3)]
    kw = [dict(lineage=l) if l else {} for l in lins]
    t, u = VectorVariable(n, "t", fn(fs[i], n), **kw[0]), VectorVariable(p, "t", fn(fs[j], p), **kw[1])
    gp, res, la = solved(ctx, Model(x, [x >= a*b*t.prod()*u.prod()]), {x.key: ctx.pos("x")}, "0")
    total = {"a": la[1], "b": la[1]}
    for var, m, dual in ((t, n, ds[i]), (u, p, ds[j])):
        for l in range(m):
            ctx.eq(gp.substitutions[var[l].key], dual.v*(l+1), "samename: each vector its own values")
            ctx.eq(res["variables"][var][l], dual.v*(l+1), "samename: solution")
            for tag, v in (("a", va), ("b", vb)):
                total[tag] = total[tag] + la[1]*dual.d.get(tag, 0)*v/dual.v
    sens = res["sensitivities"]["variables"]
    for tag, v in (("a", a), ("b", b)):
        ctx.eq(sens[v] if v.key in sens else 0, total[tag], "samename: the chain rule")


class Odd(Exception):
    "raised by a link"


def h_refuses(ctx):
    "functions that cannot be differentiated, and that fail"
    x = X("x")
    va = ctx.pos("a")
    k = ctx.pos("k")
    a = X("a", va)
    first = ctx.boolean("first")
    p, q = (X("p"), X("q")) if first else (X("q"), X("p"))
    calls = []

    def plain(v):
        if hasattr(v, "d") and hasattr(v, "trace"):
            raise NotImplementedError("only for numbers")
        return v*k

    def fails(v):
        calls.append(v)
        raise Odd()
    kind = ctx.choice("kind", 5)
    fp = [lambda c: plain(c[a]), lambda c: fails(c[a]), lambda c: c["nothing"], lambda c: k, lambda c: c[q]][kind]
    chained = ctx.boolean("chained")
    m = Model(x, [x >= a*p*q], {p: fp, q: (lambda c: c[p]**2) if chained or kind == 4 else (lambda c: c[a]**2)})
    try:
        gp, res, la = solved(ctx, m, {x.key: ctx.pos("x")}, "0")
    except Odd:
        ctx.check(kind == 1, "refuses: its own exception")
        return
    except KeyError:
        ctx.check(kind in (2, 4), "refuses: missing inputs and cycles are errors")
        return
    ctx.check(kind in (0, 3), "refuses: failing functions give no value")
    if kind not in (0, 3):
        return
    vp = va*k if kind == 0 else k
    vq = vp**2 if chained else va**2
    ctx.eq(gp.substitutions[p.key], vp, "refuses: the value nonetheless")
    ctx.eq(gp.substitutions[q.key], vq, "refuses: and those computed from it")
    ctx.eq(res["variables"][p], vp, "refuses: the value nonetheless")
    ctx.eq(res["variables"][q], vq, "refuses: and those computed from it")


class Fake:
    "a solver with its own numbers each time"
    def __init__(self, ctx, keys):
        self.ctx, self.n = ctx, 0
        self.answers = []
        self.model = None
        self.keys = keys

        def fake(**kw):
            gp = self.program()
            vals = [ctx.pos("v%d_%d" % (len(self.answers), i)) for i in range(kw["A"].shape[1])]
            self.answers.append(dict(zip(gp.varlocs, vals)))
            return {"status": "optimal", "objective": ctx.pos("obj%d" % len(self.answers)),
                    "primal": arr(ctx, [ctx.log(v) for v in vals]),
                    "la": arr(ctx, [1.0]*(len(kw["k"])))}
        self.fn = fake

    def program(self):
        p = self.model.program
        return p[-1] if isinstance(p, list) else p


def h_evaluated(ctx):
    "variables evaluated after solving: chains, units, vectors, sweeps"
    order = PERMS[ctx.choice("names", 6)]
    nm = ["pqr"[order[i]] for i in range(3)]
    k = ctx.pos("k")
    un = ctx.choice("units", 2)
    chain = ctx.choice("chain", 4)
    quantity = ctx.boolean("quantity")
    vec = ctx.boolean("vector")
    sweep = ctx.boolean("sweep")
    u = gpkit.ureg
    calls = []

    class Part(Model):
        "with evaluated variables"
        def setup(self):
            if vec:
                x = self.x = VectorVariable(2, "x", "m")
            else:
                x = self.x = X("x", "m")
            a = self.a = X("a", "m")
            make = (lambda n, un, f: VectorVariable(2, n, un, evalfn=f)) if vec else \
                (lambda n, un, f: X(n, un, evalfn=f))

            def f0(v):
                calls.append(0)
                return v[x]*k*u.m if quantity else v[x]*k
            y0 = make(nm[0], "ft" if un else "m", f0)
            y1 = make(nm[1], None, [lambda v: v[y0]*2, lambda v: v[x]*2, lambda v: v[y0]+v[a],
                                    lambda v: v[y0]*v[x]][chain])
            y2 = make(nm[2], None, lambda v: v[y1]+v[y0])
            self.y = [y0, y1, y2]
            return [x >= a]
    m = Part()
    m.cost = m.x.prod()
    va = ctx.pos("a")
    vals = [va, va+ctx.pos("da")] if sweep else [va]
    m.substitutions[m.a] = ("sweep", vals) if sweep else va
    fake = Fake(ctx, None)
    fake.model = m
    keep = GeometricProgram.check_solution
    GeometricProgram.check_solution = lambda *args, **kw: None
    try:
        later = ctx.boolean("process_result")
        sol = m.solve(fake.fn, verbosity=0, process_result=later)
    finally:
        GeometricProgram.check_solution = keep
    ctx.check(len(fake.answers) == len(vals), "evaluated: solved once a point")
    for j, answer_ in enumerate(fake.answers):
        xs = [answer_[e.key] for e in m.x] if vec else [answer_[m.x.key]]
        for i, vx in enumerate(xs):
            y0 = vx*k*(1/FT if quantity and un else 1)
            y1 = [y0*2, vx*2, y0+vals[j], y0*vx][chain]
            for y, want in zip(m.y, [y0, y1, y1+y0]):
                key = y.key
                if not later:
                    ctx.check(key not in sol["variables"], "evaluated: not unless results are processed")
                    continue
                for data in (sol["variables"], sol["freevariables"]):
                    got = data[key]
                    got = got[j] if sweep else got
                    got = got[i] if vec else got
                    ctx.eq(got, want, "evaluated: the function's value at this solution")
    if later and not sweep and not vec:
        got = sol(m.y[0])
        ctx.eq(got.magnitude, y0, "evaluated: looked up")
        ctx.check(si(Quantity(1, got.units)) == si(m.y[0].key.units), "evaluated: in its units")


def h_evaluated_fails(ctx):
    "functions of solutions that fail, or that need each other"
    names = ctx.boolean("names")
    kind = ctx.choice("kind", 4)

    class Part(Model):
        "with evaluated variables"
        def setup(self):
            x = self.x = X("x")
            p = X("p" if names else "q", evalfn=lambda v: [lambda: v[q]*2, lambda: v["nothing"], fails,
                                                           lambda: v[q]*2][kind]())
            q = X("q" if names else "p", evalfn=lambda v: v[p] if kind == 0 else v[x])
            self.p, self.q = p, q
            return [x >= 1]

    def fails():
        raise Odd()
    m = Part()
    m.cost = m.x
    fake = Fake(ctx, None)
    fake.model = m
    keep = GeometricProgram.check_solution
    GeometricProgram.check_solution = lambda *args, **kw: None
    try:
        sol = m.solve(fake.fn, verbosity=0)
    except Odd:
        ctx.check(kind == 2, "evaluated: its own exception")
        return
    except KeyError:
        ctx.check(kind in (0, 1), "evaluated: missing inputs and cycles are errors")
        return
    finally:
        GeometricProgram.check_solution = keep
    ctx.check(kind == 3, "evaluated: failing functions give no value")
    ctx.eq(sol["variables"][m.p], 2*fake.answers[0][m.x.key], "evaluated: chained")


HARNESSES = [
    Harness("dag", h_dag, "3 links of 2 inputs each among 2 constants and each other, 7 pairs of functions, any order "
            "and names", max_paths=60000),
    Harness("update", h_update, "3 solves with any of 6 changes between"),
    Harness("units", h_units, "3 units, 7 kinds of value, 3 ways of giving the input"),
    Harness("quantities", h_quantities, "8 functions of quantities to 2-vectors, 3 functions of those, 2 units"),
    Harness("samename", h_samename, "2 vectors of one name in different models, 2-3 elements, 4 functions each"),
    Harness("vector", h_vector, "2-vectors: 8 functions of all elements, 3 kinds of second vector, any order"),
    Harness("refuses", h_refuses, "5 functions, chained or not, both orders"),
    Harness("evaluated", h_evaluated, "3 variables evaluated after solving, 4 chains, units, vectors, sweeps of 2"),
    Harness("evaluated_fails", h_evaluated_fails, "4 kinds"),
]
