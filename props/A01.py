"Vector operations act elementwise"
import operator
import numpy as np
import gpkit
from .lib import *
from gpkit import NomialArray, ArrayVariable
from gpkit.nomials.math import PosynomialInequality, MonomialEquality, SignomialInequality

SHAPES = [(2,), (3,), (2, 2), (1, 3), (3, 1)]


def oarr(vals, shape):
    out = np.empty(shape, dtype=object)
    out.flat = list(vals)
    return out


def numarr(ctx, vals, shape):
    "a numeric array, as a user would make it"
    if ctx.concrete:
        return np.array([float(v) for v in vals]).reshape(shape)
    return oarr(vals, shape)


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def vecs(ctx, shape, names="vw", units=None):
    out, pt = [], {}
    for n in names:
        V = VectorVariable(shape, n, *([units] if units else []))
        vals = [ctx.pos("%s%d" % (n, i)) for i in range(size(shape))]
        for el, val in zip(V.flat, vals):
            pt[el.key] = val
        out.append((V, oarr(vals, shape)))
    return out, pt


def same(ctx, got, want, pt, label):
    "array (or scalar) of nomials equals array of numbers"
    want = np.asarray(want, dtype=object) if not isinstance(want, np.ndarray) else want
    if want.shape == ():
        ctx.eq(value(got, pt), want.item(), label)
        return
    ctx.check(getattr(got, "shape", None) == want.shape, label+": shape")
    for idx, w in np.ndenumerate(want):
        ctx.eq(value(np.ndarray.__getitem__(got, idx), pt), w, label)


def arith(ctx):
    shape = SHAPES[ctx.choice("shape", 5)]
    (pv, pw), pt = vecs(ctx, shape)
    (V, v), (W, w) = pv, pw
    c = ctx.pos("c")
    a = [ctx.pos("a%d" % i) for i in range(size(shape))]
    A, av = numarr(ctx, a, shape), oarr(a, shape)
    with SignomialsEnabled():
        cases = {
            "v+w": (V+W, v+w), "v-w": (V-W, v-w), "v*w": (V*W, v*w), "v/w": (V/W, v/w),
            "c*v": (c*V, c*v), "v*c": (V*c, v*c), "v/c": (V/c, v/c), "c/v": (c/V, c/v),
            "v+c": (V+c, v+c), "c+v": (c+V, c+v), "v-c": (V-c, v-c), "c-v": (c-V, c-v),
            "-v": (-V, -v),
            "a*v": (A*V, av*v), "v*a": (V*A, v*av), "v+a": (V+A, v+av), "a+v": (A+V, av+v),
            "v/a": (V/A, v/av), "a/v": (A/V, av/v), "v-a": (V-A, v-av), "a-v": (A-V, av-v),
            "v**2": (V**2, v**2), "v**-1": (V**-1, 1/v), "v**0.5": (V**0.5, v**0.5),
            "mixed": (c*V**2/W - V*W + 3, c*v**2/w - v*w + 3),
            "nomial*v": (W.flat[0]*V, w.flat[0]*v), "v+nomial": (V + W.flat[0], v + w.flat[0]),
            "nomial-v": (W.flat[0] - V, w.flat[0] - v),
            "nomial/v": (W.flat[0]/V, w.flat[0]/v),
            "posy*v": ((W.flat[0]+1)*V, (w.flat[0]+1)*v),
        }
    for k, (got, want) in cases.items():
        same(ctx, got, want, pt, "elementwise "+k)
    same(ctx, V, v, pt, "operands unchanged")


def broadcast(ctx):
    "shapes that broadcast follow numpy's order"
    pairs = [((2, 3), (3,)), ((2, 1), (1, 3)), ((2, 2), (2, 1)), ((3,), (2, 3))]
    s1, s2 = pairs[ctx.choice("pair", 4)]
    V = VectorVariable(s1, "v")
    W = VectorVariable(s2, "w")
    v = oarr([ctx.pos("v%d" % i) for i in range(size(s1))], s1)
    w = oarr([ctx.pos("w%d" % i) for i in range(size(s2))], s2)
    pt = {el.key: val for el, val in zip(V.flat, v.flat)}
    pt.update({el.key: val for el, val in zip(W.flat, w.flat)})
    same(ctx, V*W, v*w, pt, "broadcast product")
    same(ctx, V+W, v+w, pt, "broadcast sum")
    same(ctx, V/W, v/w, pt, "broadcast quotient")
    con = V >= W
    want = np.broadcast(v, w)
    cons = list(con)
    ctx.check(len(cons) == want.size, "one constraint per broadcast pair")
    for k, (x, y) in zip(cons, want):
        ctx.eq(value(k.left, pt), x, "broadcast constraint left")
        ctx.eq(value(k.right, pt), y, "broadcast constraint right")


def products(ctx):
    "dot, outer, sums and products"
    n = 2 + ctx.choice("n", 2)
    (pv, pw), pt = vecs(ctx, (n,))
    (V, v), (W, w) = pv, pw
    a = [ctx.pos("a%d" % i) for i in range(n)]
    A, av = numarr(ctx, a, (n,)), oarr(a, (n,))
    same(ctx, V.dot(W), v.dot(w), pt, "dot")
    same(ctx, V.dot(A), v.dot(av), pt, "dot with numbers")
    same(ctx, A.dot(V), v.dot(av), pt, "numbers dot")
    same(ctx, V.outer(W), np.outer(v, w), pt, "outer")
    same(ctx, V.sum(), sum(v), pt, "sum")
    same(ctx, (V*W + A).sum(), sum(v*w+av), pt, "sum of an expression")
    p = v[0]
    for x in v[1:]:
        p = p*x
    same(ctx, V.prod(), p, pt, "product")
    p2 = 1
    for x, y in zip(v, w):
        p2 = p2*(x+y)
    same(ctx, (V+W).prod(), p2, pt, "product of posynomials")
    same(ctx, (2*V**2/W).prod(), 2**n*np.prod(v**2/w), pt, "product of monomials")
    M = VectorVariable((2, n), "m")
    m = oarr([ctx.pos("m%d" % i) for i in range(2*n)], (2, n))
    pt.update({el.key: val for el, val in zip(M.flat, m.flat)})
    same(ctx, M.sum(), sum(m.flat), pt, "matrix sum")
    same(ctx, M.sum(axis=0), m.sum(axis=0), pt, "column sums")
    same(ctx, M.sum(1), m.sum(axis=1), pt, "row sums")
    same(ctx, M.prod(axis=1), m.prod(axis=1), pt, "row products")
    same(ctx, M.prod(), np.prod(m), pt, "matrix product")
    same(ctx, M.dot(V), m.dot(v), pt, "matrix-vector product")
    same(ctx, M.T, m.T, pt, "transpose")
    same(ctx, sum(V), sum(v), pt, "python sum")


def sums(ctx):
    "arrays mixing numbers, monomials, posynomials and cancelling terms"
    x, y = X("x"), X("y")
    vx, vy = ctx.pos("x"), ctx.pos("y")
    pt = {x.key: vx, y.key: vy}
    c, d = ctx.nonzero("c"), ctx.nonzero("d")
    with SignomialsEnabled():
        elems = [(x, vx), (c, c), (d, d), (c*x, c*vx), (x + y, vx + vy), (0, 0),
                 (-1*x, -vx), (d*x/y, d*vx/vy)]
        picks = [elems[ctx.choice("e%d" % i, 8)] for i in range(3)]
        arr = NomialArray([p[0] for p in picks])
        S = arr.sum()
        tot = picks[0][1] + picks[1][1] + picks[2][1]
        ctx.eq(value(S, pt), tot, "sum of mixed elements")
        canonical(ctx, S, "sum")
        classof(ctx, S, "sum")
        P = arr.prod()
        ctx.eq(value(P, pt), picks[0][1]*picks[1][1]*picks[2][1], "product of mixed elements")
        if hasattr(P, "hmap"):
            canonical(ctx, P, "product")
            classof(ctx, P, "product")


def unitsums(ctx):
    "sums and products with units and numbers"
    x = VectorVariable(2, "x", "ft")
    v = [ctx.pos("x0"), ctx.pos("x1")]
    q = ctx.pos("q")
    pt = {el.key: val for el, val in zip(x, v)}
    form = ctx.choice("form", 4)
    if form == 0:
        arr, tot = [x[0], q*gpkit.ureg.m], v[0] + q
    elif form == 1:
        arr, tot = [q*gpkit.units("m"), x[1]], q + v[1]
    elif form == 2:
        arr, tot = [x[0], 2*x[1], 3*gpkit.units("cm")], v[0] + 2*v[1] + 0.03
    else:
        arr, tot = [x[0]*2, x[1], 0], v[0]*2 + v[1]
    ar = np.empty(len(arr), dtype=object)
    for i, a in enumerate(arr):
        ar[i] = a
    ctx.eq(sivalue(NomialArray(ar).sum(), pt), tot, "sum with units")
    m = x.prod()
    ctx.eq(sivalue(m, pt), v[0]*v[1], "product with units")
    ctx.check(si(m.units)[1] == {"L": 2}, "units of a product")
    ctx.eq(sivalue(x.sum(), pt), v[0]+v[1], "sum of a vector with units")
    ctx.eq(sivalue((x/gpkit.units.m).sum(), pt), v[0]+v[1], "dimensionless sum")


def mixedunits(ctx):
    "sums of elements in different units of one kind, quantities and numbers"
    x = VectorVariable(2, "x", "ft")
    y, e, w = X("y", "cm"), X("e", "inch/m"), X("w")
    v = {k.key: ctx.pos(k.key.name + str(i)) for i, k in enumerate([x[0], x[1], y, e, w])}
    pt = {k: val*si(k.units)[0] for k, val in v.items()}
    q = ctx.nonzero("q")

    def val(k):
        return pt[k.key]
    with SignomialsEnabled():
        minus = -3*y
    length = [(x[0], val(x[0])), (x[1]+2*y, val(x[1])+2*val(y)), (q*gpkit.ureg.m, q),
              (minus, -3*val(y)), (0, 0), (gpkit.units("km"), 1000)]
    ratio = [(e, val(e)), (w, val(w)), (q, q), (x[0]/gpkit.units("m"), val(x[0])),
             (e*w, val(e)*val(w)), (0, 0), (q*gpkit.ureg.inch/gpkit.ureg.m, q*0.0254)]
    kind = ctx.choice("kind", 2)
    elems = (length, ratio)[kind]
    picks = [elems[ctx.choice("e%d" % i, len(elems))] for i in range(3)]
    if not any(hasattr(p[0], "hmap") for p in picks):
        return
    arr = oarr([p[0] for p in picks], (3,))
    tot = sum(p[1] for p in picks)
    with SignomialsEnabled():
        S = NomialArray(arr).sum()
    ctx.eq(sivalue(S, pt), tot, "sum of mixed units")
    ctx.check(si(S.units)[1] == ({}, {"L": 1})[kind == 0 and bool(S.hmap)],
              "units of a sum of mixed units")
    canonical(ctx, S, "sum of mixed units")
    if all(hasattr(p[0], "hmap") for p in picks) and len(picks[1][0].hmap) == 1:
        with SignomialsEnabled():
            P = NomialArray(arr).prod()
        ctx.eq(sivalue(P, pt), picks[0][1]*picks[1][1]*picks[2][1], "product of mixed units")


def index(ctx):
    shape = [(3,), (2, 2), (2, 3)][ctx.choice("shape", 3)]
    (pv,), pt = vecs(ctx, shape, "v")
    V, v = pv
    for idx in np.ndindex(*shape):
        el = V[idx]
        ctx.check(el.key.idx == idx, "element knows its position")
        ctx.check(el.key.veckey == V.key, "element knows its vector")
        ctx.eq(value(el, pt), v[idx], "indexing")
    slices = [slice(0, 1), slice(1, None), slice(None, None, -1), 0, -1]
    if len(shape) == 2:
        slices += [(0, slice(None)), (slice(None), 1), (slice(None), slice(1, None)),
                   (-1, -1)]
    for s in slices:
        got, want = V[s], v[s]
        if isinstance(want, np.ndarray):
            same(ctx, got, want, pt, "slicing")
            same(ctx, got*2 + 1, want*2 + 1, pt, "arithmetic on a slice")
        else:
            ctx.eq(value(got, pt), want, "slicing to an element")
    E = (V**2 + 1)
    same(ctx, E[0], (v**2+1)[0], pt, "indexing an expression")


def subs(ctx):
    "substitution into arrays"
    (pv, pw), pt = vecs(ctx, (2,))
    (V, v), (W, w) = pv, pw
    with SignomialsEnabled():
        E = V**2*W - W + 3*V
    k = ctx.choice("k", 4)
    arr = numarr(ctx, list(v), (2,))
    sub = [{V: arr}, {V[0]: v[0]}, {"v": arr, W[1]: w[1]}, {V.key: list(v), "w": numarr(ctx, list(w), (2,))}][k]
    out = E.sub(sub, require_positive=False)
    same(ctx, out, v**2*w - w + 3*v, pt, "substitution value")
    gone = [{0, 1}, {0}, {0, 1}, {0, 1}][k]
    for i in range(2):
        ctx.check((V[i].key in out[i].vks) == (i not in gone), "substitutes exactly the elements named")
    same(ctx, E, v**2*w - w + 3*v, pt, "substitution leaves the original")


def holds(con, pt, ctx):
    l, r = value(con.left, pt), value(con.right, pt)
    return {"<=": lambda: l <= r, ">=": lambda: l >= r, "=": lambda: l == r}[con.oper]()


def constraints(ctx):
    "a vector constraint is exactly the constraints of its elements, in order"
    shape = [(2,), (3,), (2, 2)][ctx.choice("shape", 3)]
    (pv, pw), pt = vecs(ctx, shape)
    (V, v), (W, w) = pv, pw
    c = ctx.pos("c")
    a = [ctx.pos("a%d" % i) for i in range(size(shape))]
    A, av = numarr(ctx, a, shape), oarr(a, shape)
    one = np.ones(shape, dtype=object)
    q = W.flat[0]
    forms = [
        (lambda: V <= W, v, "<=", w), (lambda: V >= W, v, ">=", w), (lambda: V == W, v, "=", w),
        (lambda: V <= c, v, "<=", c*one), (lambda: V >= c, v, ">=", c*one),
        (lambda: V == c, v, "=", c*one), (lambda: c <= V, v, ">=", c*one),
        (lambda: V <= A, v, "<=", av), (lambda: A <= V, v, ">=", av), (lambda: V >= A, v, ">=", av),
        (lambda: A >= V, v, "<=", av),
        (lambda: V == A, v, "=", av), (lambda: V >= q, v, ">=", w.flat[0]*one),
        (lambda: V <= q, v, "<=", w.flat[0]*one),
        (lambda: V*W + c <= W*V**2, v*w+c, "<=", w*v**2),
        (lambda: W*V >= V + W, w*v, ">=", v + w),
        (lambda: V <= a[:shape[0]] if len(shape) == 1 else V <= A, v, "<=", av),
    ]
    mk, l, op, r = forms[ctx.choice("form", len(forms))]
    con = mk()
    ctx.check(getattr(con, "oper", None) == op, "operator of the vector constraint")
    cons = list(con)
    ctx.check(len(cons) == size(shape), "one constraint per element")
    flat = list(gpkit.ConstraintSet([con]).flat())
    ctx.check(len(flat) == size(shape), "one flat constraint per element")
    for k, fl, x, y in zip(cons, flat, l.flat, r.flat):
        ctx.check(k is fl, "flattened in order")
        ctx.check(isinstance(k, (MonomialEquality if op == "=" else PosynomialInequality)),
                  "elements are scalar constraints")
        kl, kr = value(k.left, pt), value(k.right, pt)
        if k.oper != op:
            kl, kr = kr, kl
            ctx.check({"<=": ">=", ">=": "<=", "=": "="}[k.oper] == op, "element operator")
        ctx.eq(kl, x, "element left side")
        ctx.eq(kr, y, "element right side")
    # the compiled constraint set agrees with the elements
    hs = list(gpkit.ConstraintSet([con]).as_hmapslt1({}))
    want = []
    for x, y in zip(l.flat, r.flat):
        if op == "<=":
            want.append((x, y))
        elif op == ">=":
            want.append((y, x))
        else:
            want.extend([(x, y), (y, x)])
    ctx.check(len(hs) == len(want), "compiled forms per element")
    for h, (x, y) in zip(hs, want):
        p = value(h, pt)
        le = ctx.holds(x <= y)
        # equivalent up to the documented feasibility tolerance: exact here
        if ctx.concrete:
            if abs(x-y) > 1e-6*(abs(x)+abs(y)):
                ctx.check((p <= 1) == le, "compiled element is equivalent")
        else:
            ctx.check(p <= 1 if le else p > 1, "compiled element is equivalent")


def truth(ctx):
    "an equality of arrays is true exactly when every element is identical"
    x, y = X("x"), X("y")
    c, d, e = ctx.pos("c"), ctx.pos("d"), ctx.pos("e")
    A = NomialArray([c*x, d*y])
    k = ctx.choice("k", 3)
    B = [NomialArray([d*x, d*y]), NomialArray([c*x, e*y]), NomialArray([d*x, c*y])][k]
    from gpkit.exceptions import PrimalInfeasible
    try:
        res = bool(A == B)
    except PrimalInfeasible:
        res = False
    want = ([c == d, d == e, c == d][k])
    ctx.check(res == ctx.holds(want), "array equality truth value")
    ctx.check(not bool(A <= B*y/x), "inequalities are never true")


def signomial(ctx):
    (pv, pw), pt = vecs(ctx, (2,))
    (V, v), (W, w) = pv, pw
    with SignomialsEnabled():
        con = V - W >= V**2 - 1
    cons = list(con)
    ctx.check(len(cons) == 2, "one signomial constraint per element")
    for k, x, y in zip(cons, v, w):
        ctx.check(isinstance(k, SignomialInequality), "signomial elements")
        ctx.eq(value(k.unsubbed[0], pt), x**2 - 1 - x + y, "signomial elements")


def views(ctx):
    "indexing a view of a vectorized model indexes its variables alike"
    class Inner(gpkit.Model):
        def setup(self):
            self.p, self.w = X("p"), VectorVariable(2, "w")
            self.k = 3
            return [self.p >= 1, self.w >= self.p]

    class Sub(gpkit.Model):
        def setup(self):
            self.inner, self.x = Inner(), X("x")
            return [self.x >= self.inner.p, self.inner]
    with gpkit.Vectorize(2):
        with gpkit.Vectorize(3):
            s = Sub()
    i, j, h = ctx.choice("i", 2), ctx.choice("j", 3), ctx.choice("h", 2)
    view = s.as_view()
    top = view[i]
    at = [view[i][j], view[j, i], view[(i,)][(j,)], view[i][j]][ctx.choice("how", 4)]
    ctx.check(s.x.shape == (3, 2) and s.inner.w.shape == (2, 3, 2), "views: shapes")
    pt, val = {}, {}
    for n, arr in (("x", s.x), ("p", s.inner.p), ("w", s.inner.w)):
        for idx in np.ndindex(*arr.shape):
            val[(n,)+idx] = pt[arr[idx].key] = ctx.pos("%s%s" % (n, "".join(map(str, idx))))
    ctx.eq(value(at.x*1, pt), val["x", j, i], "views: an element")
    ctx.eq(value(at.inner.p*1, pt), val["p", j, i], "views: an element of a submodel's")
    w = at.inner.w
    ctx.check(getattr(w, "shape", ()) == (2,), "views: a vectorized vector")
    ctx.eq(value(w[h]*1, pt), val["w", h, j, i], "views: its elements")
    ctx.check(top.x.shape == (3,) and top.inner.w.shape == (2, 3), "views: of part of the indices")
    ctx.eq(value(top.x[j]*1, pt), val["x", j, i], "views: of part of the indices")
    ctx.eq(value(top.inner.w[h, j]*1, pt), val["w", h, j, i], "views: of part of the indices")
    for attr, err in (("nothing", AttributeError), ("k", ValueError)):
        try:
            getattr(at.inner, attr)
            ctx.check(False, "views: refuses others")
        except err:
            pass


def quantities(ctx):
    "a quantity (or an array of them) is each element's"
    unit, fac = [("m", 1.0), ("inch", 0.0254), ("ft", 0.3048)][ctx.choice("unit", 3)]
    V = VectorVariable(2, "v", "ft")
    v = [ctx.pos("v%d" % i) for i in range(2)]
    pt = {el.key: val*0.3048 for el, val in zip(V, v)}
    one = ctx.boolean("one")
    qv = [ctx.pos("q0")]*2 if one else [ctx.pos("q0"), ctx.pos("q1")]
    q = (qv[0] if one else numarr(ctx, qv, (2,)))*gpkit.ureg(unit)
    si_v, si_q = [val*0.3048 for val in v], [val*fac for val in qv]
    form, left = ctx.choice("form", 9), ctx.boolean("left")
    if form < 5:
        right = [lambda: V*q, lambda: V/q, lambda: V+q, lambda: V-q, lambda: V**2/q]
        with SignomialsEnabled():
            got = (right if not left else
                   [lambda: q*V, lambda: 1/(q/V), lambda: q+V, lambda: -(q-V), lambda: 1/(q/V**2)])[form]()
        want = [lambda a, b: a*b, lambda a, b: a/b, lambda a, b: a+b, lambda a, b: a-b, lambda a, b: a*a/b][form]
        ctx.check(got.shape == (2,), "quantities: shape")
        for g, a, b in zip(got, si_v, si_q):
            ctx.eq(sivalue(g, pt), want(a, b), "quantities: value")
            ctx.check(si(g.units)[1] == [{"L": 2}, {}, {"L": 1}, {"L": 1}, {"L": 1}][form], "quantities: units")
        return
    con = ([lambda: V >= q, lambda: V <= q, lambda: V == q, lambda: V**2/q >= V/2] if not left else
           [lambda: q <= V, lambda: q >= V, lambda: q == V, lambda: q*V/2 <= V**2])[form-5]()
    cons = list(con.constraints.flat) if hasattr(con, "constraints") else list(con)
    ctx.check(len(cons) == 2, "quantities: a constraint for each element")
    for c, a, b in zip(cons, si_v, si_q):
        hmaps = list(c.as_hmapslt1({}))
        want = [[b/a], [a/b], [a/b, b/a], [b/a/2]][form-5]
        got = [sum(coef*np.prod([(pt[vk]/0.3048)**e for vk, e in exp.items()]) for exp, coef in hm.items())
               for hm in hmaps]
        ctx.check(len(got) == len(want), "quantities: sides")
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.eq(g, w, "quantities: constraint")


HARNESSES = [
    Harness("quantities", quantities, "a scalar or array quantity in 3 units on either side of a vector of 2, 9 operations"),
    Harness("views", views, "2 nested vectorizations and 2 nested models"),
    Harness("arith", arith, "5 shapes of up to 4 elements, 30 expressions"),
    Harness("broadcast", broadcast, "4 pairs of shapes up to 2x3"),
    Harness("products", products, "vectors of 2-3, matrices 2x2-2x3"),
    Harness("sums", sums, "3 elements of 8 kinds, any signs"),
    Harness("unitsums", unitsums, "2 elements, 4 mixes"),
    Harness("mixedunits", mixedunits, "3 elements out of 6 lengths or 7 ratios"),
    Harness("index", index, "3 shapes, 9 slices"),
    Harness("subs", subs, "2 elements, 4 key styles"),
    Harness("constraints", constraints, "3 shapes, 17 forms"),
    Harness("truth", truth, "2 elements, coefficients symbolic"),
    Harness("signomial", signomial, "2 elements"),
]
