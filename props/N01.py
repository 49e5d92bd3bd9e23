"Nomial arithmetic denotes pointwise arithmetic"
import contextlib
from .lib import *


OPS = {"add": lambda a, b: a+b, "sub": lambda a, b: a-b, "mul": lambda a, b: a*b,
       "div": lambda a, b: a/b}


def done(ctx, C, want, pt, tag, kept):
    ctx.eq(value(C, pt), want, tag+": value of the result")
    for n, v in kept:
        ctx.eq(value(n, pt), v, tag+": operands unchanged")
        if hasattr(n, "hmap"):
            hash_ok(ctx, n, tag+" operand")
    if hasattr(C, "hmap"):
        canonical(ctx, C, tag)
        classof(ctx, C, tag)
        hash_ok(ctx, C, tag)


def binop(op):
    def fn(ctx):
        xs, vs, pt = setup(ctx, "xy")
        with SignomialsEnabled():
            A, va = term(ctx, 1, xs, vs)
            B, vb = term(ctx, 2, xs, vs, signed=op != "div")
            C = OPS[op](A, B)
        done(ctx, C, OPS[op](va, vb), pt, op, [(A, va), (B, vb)])
    return fn


def monopow(ctx):
    xs, vs, pt = setup(ctx, "xy")
    A, va = term(ctx, 1, xs, vs, signed=False)
    p = ctx.real("p")
    C = A**p
    done(ctx, C, va**p, pt, "pow", [(A, va)])
    D = C*A
    done(ctx, D, va**(p+1), pt, "pow then multiply", [(A, va), (C, va**p)])


def withnumber(op, left):
    def fn(ctx):
        xs, vs, pt = setup(ctx, "x")
        with SignomialsEnabled():
            A, va = term(ctx, 1, xs, vs)
            if op != "div":
                k = ctx.signed("k")
            else:
                k = ctx.nonzero("k") if not left else ctx.signed("k")
            if op == "div" and left:
                ctx.assume(value(A, pt) > 0)   # only monomials can be divided by
            C = OPS[op](k, A) if left else OPS[op](A, k)
            want = OPS[op](k, va) if left else OPS[op](va, k)
        done(ctx, C, want, pt, "number "+op, [(A, va)])
    return fn


def posyprod(ctx):
    "(A+B)*(C+D), one symbolic exponent per term"
    xs, vs, pt = setup(ctx, "x")
    with SignomialsEnabled():
        ts = [term(ctx, i, xs, vs) for i in range(4)]
        (A, va), (B, vb), (C, vc), (D, vd) = ts
        P1, v1 = A+B, va+vb
        P2, v2 = C+D, vc+vd
        R = P1*P2
    done(ctx, R, v1*v2, pt, "product of sums", [(P1, v1), (P2, v2)] + ts)


def posyprod_pos(ctx):
    "(A+B)*(C+D) in two variables, positive coefficients"
    xs, vs, pt = setup(ctx, "xy")
    ts = [term(ctx, i, xs[i % 2:i % 2+1], vs[i % 2:i % 2+1], signed=False) for i in range(4)]
    (A, va), (B, vb), (C, vc), (D, vd) = ts
    P1, v1 = A+B, va+vb
    P2, v2 = C+D, vc+vd
    R = P1*P2
    done(ctx, R, v1*v2, pt, "product of posynomials", [(P1, v1), (P2, v2)] + ts)


def posysum(op):
    def fn(ctx):
        xs, vs, pt = setup(ctx, "x")
        with SignomialsEnabled():
            ts = [term(ctx, i, xs, vs) for i in range(4)]
            (A, va), (B, vb), (C, vc), (D, vd) = ts
            P1, v1 = A+B, va+vb
            P2, v2 = C+D, vc+vd
            R = OPS[op](P1, P2)
        done(ctx, R, OPS[op](v1, v2), pt, op+" of sums", [(P1, v1), (P2, v2)])
    return fn


def posydivmono(ctx):
    xs, vs, pt = setup(ctx, "xy")
    with SignomialsEnabled():
        A, va = term(ctx, 0, xs, vs)
        B, vb = term(ctx, 1, xs, vs)
        C, vc = term(ctx, 2, xs, vs, signed=False)
        P = A+B
        R = P/C
        done(ctx, R, (va+vb)/vc, pt, "sum over monomial", [(P, va+vb), (C, vc)])
        k = ctx.nonzero("k")
        done(ctx, P/k, (va+vb)/k, pt, "sum over number", [(P, va+vb)])


def posypow(maxn, signed):
    def fn(ctx):
        xs, vs, pt = setup(ctx, "x")
        with SignomialsEnabled() if signed else contextlib.nullcontext():
            A, va = term(ctx, 0, xs, vs, signed)
            B, vb = term(ctx, 1, xs, vs, signed)
            P, v = A+B, va+vb
            n = ctx.choice("n", maxn+1)
            R = P**n
        done(ctx, R, v**n, pt, "power of a sum", [(P, v)])
    return fn


def highpower(ctx):
    "larger powers, of sums with fixed exponents"
    xs, vs, pt = setup(ctx, "xy")
    c = ctx.pos("c")
    if ctx.boolean("sum"):
        P, v = c*xs[0] + xs[1]**2, c*vs[0] + vs[1]**2
    else:
        P, v = c*xs[0]*xs[1]**-1, c*vs[0]*vs[1]**-1
    n = ctx.choice("n", 10)
    R = P**n
    want = 1
    for _ in range(n):
        want = want*v
    done(ctx, R, want, pt, "high power", [(P, v)])
    ctx.check(len(R.hmap) == (n+1 if len(P.hmap) > 1 else 1), "high power: one term per exponent")


def program(steps):
    "random-access program over a pool, each step a chosen op on chosen entries"
    def fn(ctx):
        xs, vs, pt = setup(ctx, "xy")
        a, b = ctx.real("a"), ctx.real("b")
        c, k = ctx.pos("c"), ctx.nonzero("k")
        with SignomialsEnabled():
            pool = [(c*xs[0]**a, c*vs[0]**a), (xs[1]**b, vs[1]**b), (k, k)]
            for s in range(steps):
                op = ("add", "sub", "mul", "neg", "pow2")[ctx.choice("op%d" % s, 5)]
                i = ctx.choice("i%d" % s, len(pool)-(1 if s == 0 else 0))
                (p, vp) = pool[i]
                if op == "neg":
                    r = (-p, -vp)
                elif op == "pow2":
                    r = (p**2, vp**2)
                else:
                    j = ctx.choice("j%d" % s, len(pool))
                    (o, vo) = pool[j]
                    r = (OPS[op](p, o), OPS[op](vp, vo))
                pool.append(r)
                done(ctx, r[0], r[1], pt, "program "+op, pool[:-1])
    return fn


def accumulate(ctx):
    "sum() and in-place operators leave earlier objects alone"
    xs, vs, pt = setup(ctx, "xy")
    ts = [term(ctx, i, xs, vs, signed=False) for i in range(3)]
    n, v = ts[0]
    first = n
    n += ts[1][0]
    n *= ts[2][0]
    n += 0
    n /= ts[0][0]
    want = (ts[0][1]+ts[1][1])*ts[2][1]/ts[0][1]
    done(ctx, n, want, pt, "in-place operators", ts + [(first, ts[0][1])])
    done(ctx, sum(t[0] for t in ts), ts[0][1]+ts[1][1]+ts[2][1], pt, "sum()", ts)


def united(which):
    """two operations over operands with and without units: the result is the
    arithmetic on physical values, or incompatible units are refused"""
    def fn(ctx):
        x, y, z, w = X("x", "ft"), X("y", "cm"), X("z", "min"), X("w")
        pos = {v: ctx.pos(v.key.name) for v in (x, y, z, w)}
        sipt = {v.key: pos[v]*si(v.units)[0] for v in pos}
        c = ctx.pos("c")
        L, T = {"L": 1}, {"T": 1}
        ureg = gpkit.ureg

        def val(v):
            return sipt[v.key]
        make = [
            lambda: (x, val(x), L),
            lambda: (c*x + y, c*val(x) + val(y), L),
            lambda: (y/(3*z), val(y)/(3*val(z)), {"L": 1, "T": -1}),
            lambda: (x/gpkit.units("m"), val(x), {}),      # no units, and not w
            lambda: (w, val(w), {}),
            lambda: (x/y + w, val(x)/val(y) + val(w), {}),
            lambda: (c*ureg.inch, c*0.0254, L),
            lambda: (c/ureg.hour, c/3600, {"T": -1}),
            lambda: (gpkit.units("km"), 1000.0, L),
            lambda: (c*ureg.inch/ureg.meter, c*0.0254, {}),
            lambda: (2, 2, {}),
            lambda: (c, c, {}),
        ]
        first, second = which

        def pick(tag, names):
            return make[names[ctx.choice(tag, len(names))]]()
        with SignomialsEnabled():
            A = pick("a", range(6))
            for n, op in enumerate((first, second)):
                if not op:
                    break
                flip = op != "pow" and bool(ctx.choice("flip%d" % n, 2))
                if op == "pow":
                    B = ((0, 1, 2, 3, -1, 0.5, -2)[ctx.choice("pow", 7)], None, {})
                    if not isinstance(A[0], Monomial) and B[0] not in (0, 1, 2, 3):
                        return
                else:
                    B = pick("b%d" % n, range(12))
                if flip and (hasattr(B[0], "hmap") or not hasattr(B[0], "units")):
                    A, B = B, A     # (pint decides what a Quantity on the left does)
                (a, va, da), (b, vb, db) = A, B
                if op == "div" and hasattr(b, "hmap") and len(b.hmap) > 1:
                    return        # refused, whatever the units
                before = [(o, getattr(o, "hmap", None) and dict(o.hmap), si(o.units))
                          for o in (a, b) if hasattr(o, "hmap")]
                if not before:
                    return        # arithmetic of plain numbers isn't gpkit's
                same = da == db or op in ("mul", "div", "pow")
                tag = "%s of units" % op
                try:
                    r = a**b if op == "pow" else OPS[op](a, b)
                except gpkit.DimensionalityError:
                    ctx.check(not same, tag+": compatible units are accepted")
                    return
                ctx.check(same, tag+": incompatible units are refused")
                if op == "pow":
                    v, d = (va**b if b else 1.0), {k: e*b for k, e in da.items() if b}
                elif op in ("mul", "div"):
                    v, sign = OPS[op](va, vb), 1 if op == "mul" else -1
                    d = {k: da.get(k, 0)+sign*db.get(k, 0) for k in set(da) | set(db)}
                    d = {k: e for k, e in d.items() if e}
                else:
                    v, d = OPS[op](va, vb), da
                ctx.check(si(r.units)[1] == d, tag+": units of the result")
                ctx.eq(sivalue(r, sipt), v, tag+": physical value")
                for o, hmap, units in before:
                    ctx.check(si(o.units) == units, tag+": operand's units unchanged")
                    ctx.check(list(o.hmap) == list(hmap), tag+": operand's terms unchanged")
                    for e in hmap:
                        ctx.eq(o.hmap[e], hmap[e], tag+": operand unchanged")
                canonical(ctx, r, tag)
                A = (r, v, d)
    return fn


def disabled(ctx):
    "outside a signomial scope subtraction and negation are refused"
    xs, vs, pt = setup(ctx, "xy")
    A, va = term(ctx, 0, xs, vs, signed=False)
    B, vb = term(ctx, 1, xs, vs, signed=False)
    ctx.check(not hasattr(-A, "hmap"), "no negated nomial outside its scope")
    for name, f in (("sub", lambda: A-B), ("rsub", lambda: 1-A)):
        try:
            f()
            ctx.check(False, "signomial %s refused outside its scope" % name)
        except TypeError:
            ctx.check(True, "signomial %s refused outside its scope" % name)
    k = ctx.real("k")
    try:
        C = A*k
        ctx.check(k >= 0, "negative multiple refused outside scope")
        ctx.eq(value(C, pt), va*k, "multiple value")
    except gpkit.exceptions.InvalidPosynomial:
        ctx.check(k <= 0, "positive multiple accepted outside scope")


HARNESSES = [Harness("mono_"+o, binop(o), "2 terms, 2 variables, any coefficients/exponents")
             for o in OPS]
HARNESSES += [Harness("mono_pow", monopow, "1 monomial, 2 variables, symbolic power")]
HARNESSES += [Harness("num_%s_%s" % (o, "left" if l else "right"), withnumber(o, l),
                      "number of any sign, 1 term") for o in OPS for l in (True, False)]
HARNESSES += [
    Harness("product_of_signomials", posyprod, "2x2 terms, 1 variable, any signs", tier="thorough"),
    Harness("product_of_posynomials", posyprod_pos, "2x2 terms, 2 variables"),
    Harness("sum_of_sums", posysum("add"), "2+2 terms, 1 variable", ),
    Harness("difference_of_sums", posysum("sub"), "2-2 terms, 1 variable", tier="thorough"),
    Harness("sum_over_mono", posydivmono, "2 terms over 1, 2 variables"),
    Harness("posy_power", posypow(3, False), "2 terms, powers 0..3"),
    Harness("high_power", highpower, "1 to 2 terms, powers 0..9"),
    Harness("signomial_power", posypow(3, True), "2 terms, powers 0..3"),
    Harness("accumulate", accumulate, "3 monomials, 2 variables"),
    Harness("scope", disabled, "2 monomials"),
    Harness("program2", program(2), "any 2 operations over a 3-entry pool", max_paths=20000),
    Harness("program3", program(3), "any 3 operations over a 3-entry pool", tier="thorough", max_paths=200000),
]
PAIRS = [(a, None) for a in ("add", "mul", "div", "pow")]
HARNESSES += [Harness("united_"+a, united((a, b)), "2 operands out of 12, with and without units")
              for a, b in PAIRS]
HARNESSES += [Harness("united_%s_%s" % (a, b), united((a, b)), "2 operations over 12 operands",
                      max_paths=20000, tier="quick" if "pow" in (a, b) or a == "div" == b else "thorough")
              for a in OPS for b in list(OPS) + ["pow"]]
