"Printed expressions denote the expression they print"
import re
import numpy as np
from .lib import *
from .textlib import printing, read, read_latex, Misread
import gpkit
from gpkit import Model, ConstraintSet, NamedVariables
from gpkit.nomials import NomialArray
from gpkit.nomials.map import NomialMap
from gpkit.small_classes import HashVector

NOTE = ("symbolic numbers are printed as distinct three-digit stand-ins and read back as themselves, so what is "
        "decided is whether the text denotes the expression, for every number; replays use numbers of three digits "
        "(which print exactly) and allow for the rounding of computed ones")

UNARY = ["neg", "square", "cube", "tenth", "root", "inverse", "inverse2"]
POW = {"square": 2, "cube": 3, "tenth": 10, "root": 0.5, "inverse": -1, "inverse2": -2}
BINARY = ["add", "sub", "mul", "div"]


def three(ctx, v):
    return float("%.3g" % v) if ctx.concrete else v


def number(ctx, name, big=True):
    "a number; above the multiples of pi that are spelled as such unless big is false"
    v = ctx.pos(name)
    if big:
        v = 400+v
    v = three(ctx, v)
    return v


def mono_hmap(*pairs, c=1.0):
    return NomialMap({HashVector(dict(pairs)): c})


class Leaves:
    "variables, numbers, and nomials with no history; [(expression, value)]"
    def __init__(self, ctx, sets):
        self.ctx = ctx
        self.names = {}
        self.sets = sets
        self.pt = {}
        self.size = 0

    def var(self, name):
        if name not in self.names:
            self.names[name] = self.ctx.pos(name)
        x = X(name)
        self.pt[x.key] = self.names[name]
        return x

    def __call__(self, i):
        kind = self.sets[i][self.ctx.choice("leaf%d" % i, len(self.sets[i]))] if len(self.sets[i]) > 1 \
            else self.sets[i][0]
        if kind in "xyzw":
            return self.var(kind)
        if kind == "c":
            return number(self.ctx, "c%d" % i)
        if kind == "n":
            return -number(self.ctx, "c%d" % i)
        if kind == "1":
            return 1
        if kind == "2":
            return 2
        if kind == "h":     # no history
            x, y = self.var("x"), self.var("y")
            h = NomialMap({HashVector({x.key: 2, y.key: -1}): number(self.ctx, "c%d" % i),
                           HashVector({y.key: 0.5}): number(self.ctx, "d%d" % i)})
            return Posynomial(h)
        raise ValueError(kind)


class NotAllowed(Exception):
    "gpkit does not have this operation"


def combine(ctx, op, a, b):
    try:
        if op == "add":
            return a+b
        if op == "sub":
            return a-b
        if op == "mul":
            return a*b
        if op == "div":
            return a/b
        if op == "neg":
            return -a
        if op == "root" and not (isinstance(a, Monomial) and a.c > 0):
            raise NotAllowed()
        if op == "tenth" and len(getattr(a, "hmap", ())) != 1:
            raise NotAllowed()      # a hundred terms
        if op in ("square", "cube") and len(getattr(a, "hmap", ())) > 3:
            raise NotAllowed()
        return a**POW[op]
    except (TypeError, ZeroDivisionError) as e:
        raise NotAllowed() from e


def build(ctx, shape, leaves, path="r"):
    "shape: an int (leaf) or a list of 1 or 2 shapes"
    if isinstance(shape, int):
        return leaves(shape)
    ops = UNARY if len(shape) == 1 else BINARY
    op = ops[ctx.choice("op_"+path, len(ops))]
    kids = [build(ctx, s, leaves, path+str(i)) for i, s in enumerate(shape)]
    return combine(ctx, op, kids[0], kids[-1])


def compare(ctx, s, n, names, pt, text, tag, latex=False, spelled=False):
    "the text, read, has the value of the nomial"
    try:
        got = (read_latex if latex else read)(s, names, text)
    except Misread as e:
        ctx.check(False, tag+": readable" + (" (%s)" % e if ctx.concrete else ""))
        return
    except OverflowError:
        return
    want = value(n, pt)
    if ctx.concrete:
        text.magnitude = True
        scale = (read_latex if latex else read)(s, names, text)
        text.magnitude = False
        ok = abs(got-want) <= (0.01 if spelled else 0.03)*scale
        ctx.check(ok, tag if ok else tag+" (%s: %r vs %r)" % (s, got, want))
    elif spelled:
        tol = 0.01*sum(abs(float(c))*value(Monomial(NomialMap({e: 1.0})), pt) for e, c in n.hmap.items())
        ctx.le(got-want, tol, tag)
        ctx.le(want-got, tol, tag)
    else:
        ctx.eq(got, want, tag)


def tree(shape, sets, signed=True, latex=False):
    def fn(ctx):
        leaves = Leaves(ctx, sets)
        with SignomialsEnabled():
            try:
                n = build(ctx, shape, leaves)
            except NotAllowed:
                return
        if not hasattr(n, "hmap"):
            return
        if latex and any(float("%.2g" % e) != e for exp in n.hmap for e in exp.values()):
            return      # latex exponents have two digits
        with printing(ctx) as text:
            s = n.str_without(["units"]) if not latex else n.latex(["units"])
            again = n.str_without(["units"]) if not latex else n.latex(["units"])
        ctx.check(s == again, "printing twice")
        compare(ctx, s, n, leaves.names, leaves.pt, text, "latex" if latex else "text", latex)
    return fn


def numbers(latex=False):
    "how a number is written: multiples of pi, signs, ones"
    def fn(ctx):
        x, vx = X("x"), ctx.pos("x")
        c = number(ctx, "c", big=False)
        if ctx.boolean("negative"):
            c = -c
        special = [None, 1, -1, np.pi, np.pi/2, 2*np.pi, np.pi/3, 3*np.pi, -np.pi, 1000.0, 1e6, 1e-7, np.pi/4*3,
                   12*np.pi, -2.5, 0.1][ctx.choice("special", 16)]
        if special is not None:
            c = special
        with SignomialsEnabled():
            form = ctx.choice("form", 7)
            n = [lambda: c*x, lambda: x+c, lambda: x*c, lambda: x/c, lambda: c/x, lambda: (x+1)*c,
                 lambda: Signomial(NomialMap({HashVector({x.key: 1}): c}))][form]()
        with printing(ctx) as text:
            s = n.str_without(["units"]) if not latex else n.latex(["units"])
        compare(ctx, s, n, {"x": vx}, {x.key: vx}, text, "number", latex, spelled=special is not None)
    return fn


def exponents(latex=False):
    "how exponents are written"
    def fn(ctx):
        x, vx = X("x"), ctx.pos("x")
        y, vy = X("y"), ctx.pos("y")
        e = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 0.5, 1.5, -1, -2, -3, -0.5, 100, 2.0, -9, 0.25][ctx.choice("e", 21)]
        form = ctx.choice("form", 5)
        n = [lambda: x**e, lambda: 1/x**e, lambda: (x*y)**e, lambda: (x/y)**e,
             lambda: Monomial(NomialMap({HashVector({x.key: e, y.key: -1}): 1.0}))][form]()
        ctx.assume(vx < 2)
        ctx.assume(vx > .5)
        ctx.assume(vy < 2)
        ctx.assume(vy > .5)
        with printing(ctx) as text:
            s = n.str_without(["units"]) if not latex else n.latex(["units"])
        compare(ctx, s, n, {"x": vx, "y": vy}, {x.key: vx, y.key: vy}, text, "exponent", latex)
    return fn


def arrays(ctx):
    "sums, products, slices of vectors"
    v = VectorVariable(3, "v")
    x = X("x")
    vv = [ctx.pos("v%d" % i) for i in range(3)]
    vx = ctx.pos("x")
    pt = {v[i].key: vv[i] for i in range(3)}
    pt[x.key] = vx
    names = {"x": vx, "v": np.array(vv, dtype=object)}
    c = number(ctx, "c")
    with SignomialsEnabled():
        a = [lambda: v, lambda: v*x, lambda: v+x, lambda: v**2, lambda: x/v, lambda: -v, lambda: v*c, lambda: v-x,
             lambda: v/x, lambda: NomialArray([x, v[0], v[1]*c]), lambda: v**-1,
             lambda: v**0.5][ctx.choice("array", 12)]()
        b = [lambda: a, lambda: a[:2], lambda: a[1:], lambda: a[::2], lambda: a*x, lambda: a**2, lambda: -a,
             lambda: a+c, lambda: a[0:2][1:], lambda: a*a, lambda: c/a if ctx.choice("array", 12) == 0 else a][
                 ctx.choice("then", 11)]()
        n = [lambda: b.sum(), lambda: b.prod(), lambda: b.sum()*x, lambda: b.prod()**2, lambda: x-b.sum(),
             lambda: x*b.prod()+c][ctx.choice("reduce", 6)]()
    with printing(ctx) as text:
        s = n.str_without(["units"])
    compare(ctx, s, n, names, pt, text, "array")


def matrix(ctx):
    "two-dimensional slices"
    v = VectorVariable((2, 3), "v")
    names = {"v": np.empty((2, 3), dtype=object)}
    pt = {}
    for i in range(2):
        for j in range(3):
            names["v"][i, j] = pt[v[i, j].key] = ctx.pos("v%d%d" % (i, j))
    x = X("x")
    names["x"] = pt[x.key] = ctx.pos("x")
    a = [lambda: v[0], lambda: v[:, 1], lambda: v[1, :2], lambda: v[:, 1:], lambda: v[:1], lambda: v[0:2, 0],
         lambda: v[-1], lambda: v[:, -1], lambda: v[1:, :2], lambda: v[:, ::2]][ctx.choice("slice", 10)]()
    n = [lambda: a.sum(), lambda: a.prod(), lambda: (a*x).sum(), lambda: (a+x).prod(),
         lambda: a[0:1].sum()][ctx.choice("reduce", 5)]()
    with printing(ctx) as text:
        s = n.str_without(["units"])
    compare(ctx, s, n, names, pt, text, "matrix")


def constraint(latex=False):
    "sides and sense of constraints"
    def fn(ctx):
        leaves = Leaves(ctx, [["x", "h"], ["y", "c"], ["x", "c"], ["y", "w"]])
        sides = []
        with SignomialsEnabled():
            for k in range(2):
                op = BINARY[ctx.choice("op%d" % k, 4)]
                try:
                    sides.append(combine(ctx, op, leaves(2*k), leaves(2*k+1)))
                except NotAllowed:
                    return
            if not all(hasattr(side, "hmap") for side in sides):
                return
            oper = ["<=", ">=", "="][ctx.choice("oper", 3)]
            try:
                con = (sides[0] <= sides[1] if oper == "<=" else sides[0] >= sides[1] if oper == ">="
                       else sides[0] == sides[1])
            except (gpkit.exceptions.PrimalInfeasible, gpkit.exceptions.InvalidGPConstraint, ValueError):
                return
        if isinstance(con, (bool, np.bool_)) or not hasattr(con, "left"):
            return
        with printing(ctx) as text:
            s = con.str_without(["units"]) if not latex else con.latex(["units"])
        sym = {"<=": ("≤", r"\leq"), ">=": ("≥", r"\geq"), "=": ("=", "=")}[con.oper][latex]
        parts = s.split(" %s " % sym)
        ctx.check(len(parts) == 2, "two sides and the operator")
        if len(parts) != 2:
            return
        flip = {"<=": ">=", ">=": "<=", "=": "="}
        tag = "latex constraint" if latex else "constraint"
        same = con.oper == oper and (con.left is sides[0] or oper == "=")
        # the printed relation is the one asked for, in either order
        if con.oper == oper:
            order = sides
        else:
            ctx.check(con.oper == flip[oper], "the relation asked for")
            order = sides[::-1]
        for part, side in zip(parts, order):
            compare(ctx, part, side, leaves.names, leaves.pt, text, tag, latex)
    return fn


def units(ctx):
    "units are shown unless excluded, and are the expression's"
    ux, uy = [("ft", "ft"), ("m", "s"), ("ft", None), (None, None)][ctx.choice("units", 4)]
    x = X("x", ux) if ux else X("x")
    y = X("y", uy) if uy else X("y")
    vx, vy = ctx.pos("x"), ctx.pos("y")
    c = number(ctx, "c")
    forms = [lambda: x*y, lambda: x/y, lambda: c*x, lambda: x**2*y, lambda: x, lambda: y**-1,
             lambda: Monomial(NomialMap((x*y).hmap))]
    if ux == uy:
        forms += [lambda: x+c*y, lambda: (x+y)*x, lambda: (x+y)**2]
    n = forms[ctx.choice("form", len(forms))]()
    with printing(ctx) as text:
        s = n.str_without()
        bare = n.str_without(["units"])
    mat = re.match(r"^(.*?)(?: \[([^\]]*)\])?$", s)
    ctx.check(mat.group(1) == bare, "without units is the rest")
    ctx.check(bool(mat.group(2)) == bool(n.units), "units are shown when there are any")
    if mat.group(2):
        shown = gpkit.units(mat.group(2).replace("·", "*").replace("²", "**2").replace("³", "**3")
                            .replace("1/", "1.0/").replace("⁻¹", "**-1"))
        ctx.check(si(shown.units) == si(n.units), "the expression's units")
    compare(ctx, bare, n, {"x": vx, "y": vy}, {x.key: vx, y.key: vy}, text, "with units")


def lineages(ctx):
    "variables of one model that print alike are the same"
    picks = []

    class Sub(Model):
        "a part"
        def setup(self, names, vec):
            self.v = [VectorVariable(2, n)[1] if vec else X(n) for n in names]
            e = ctx.pos("e") if not picks else 1
            picks.append(1)
            return [sum(v for v in self.v) <= number(ctx, "c%d" % len(picks))]

    class Other(Sub):
        "another part"
    kinds = [["x"], ["x", "y"], ["y"], ["z", "y"]]
    a = kinds[ctx.choice("a", 4)]
    b = kinds[ctx.choice("b", 4)]
    veca, vecb = ctx.boolean("veca"), ctx.boolean("vecb")
    both = ctx.boolean("same class")
    s1 = Sub(a, veca)
    s2 = (Sub if both else Other)(b, vecb)
    top = X("x") if ctx.boolean("top") else X("w")
    inner = ConstraintSet([s2]) if ctx.boolean("nested") else s2
    order = ctx.choice("printed first", 3)
    with printing(ctx) as text:
        if order == 1:
            str(s1), str(s2)
        for sub in (s1, s2):
            list(sub.flat())
        cons = top*s1.v[0]*s2.v[0] >= 1
        m = Model(top, [s1, inner, cons])
        if order == 2:
            str(cons), cons.str_without(["unnecessary lineage", "units"])
        excl = ("unnecessary lineage", "units")
        s = m.str_without(excl)
        line = [ln for ln in s.split("\n") if "·" in ln]
        again = m.str_without(excl)
        full = cons.str_without(["units"])
        bare = m.str_without(("lineage", "units"))
    ctx.check(s == again, "printing twice")
    ctx.check(len(line) == 1, "one line for the constraint")
    keys = [top.key, s1.v[0].key, s2.v[0].key]
    got = line[0].split("≥")[0].strip().split("·")
    ctx.check(len(got) == 3, "three factors")
    for i in range(3):
        for j in range(i):
            ctx.check((got[i] == got[j]) == (keys[i] == keys[j]), "different variables print differently")
    fl = full.split("≥")[0].strip().split("·")
    want = [k.str_without([]) for k in keys]
    ctx.check(sorted(fl) == sorted(want), "with model names unless excluded")
    ctx.check(not re.search(r"[A-Za-z]\d*\.", bare), "without model names when excluded")
    for v in s1.v+s2.v+[top]:
        ctx.check("necessarylineage" not in v.key.descr, "printing leaves the variables as they were")
    tail = [g.split(".")[-1] for g in got]
    for t, k in zip(tail, keys):
        ctx.check(t == k.str_without(["lineage"]), "each factor is its variable's name")


EXCLUDED = [(), ("units",), ("lineage",), ("lineage", "units"), ("unnecessary lineage", "units"), ("modelnums",),
            ("vec", "units")]


def settings(ctx):
    "how something is printed does not depend on how it was printed before"
    x, y = X("x", "ft", lineage=(("A", 0), ("B", 1))), X("y", "ft", lineage=(("A", 2),))
    v = VectorVariable(2, "v", "ft", lineage=(("A", 2),))
    c = number(ctx, "c")
    forms = [lambda: x+c*y, lambda: c*x/y, lambda: (x*y)**2, lambda: (x+y).prod() if hasattr(x+y, "prod") else x*y*c,
             lambda: c*v, lambda: (v*x).sum(), lambda: v[0]+c*v[1], lambda: x+c*y <= v[0], lambda: v <= x,
             lambda: ConstraintSet([x >= y, c*v <= x])]
    form = forms[ctx.choice("form", len(forms))]
    picks = [EXCLUDED[ctx.choice("s%d" % i, len(EXCLUDED))] for i in range(2)]
    latex = ctx.boolean("latex")
    with printing(ctx):
        def text(obj, excl):
            return obj.latex(excl) if latex else obj.str_without(excl)
        one = form()
        got = [text(one, e) for e in picks + [picks[0]]]
        want = [text(form(), e) for e in picks + [picks[0]]]
    ctx.check(got[0] == want[0], "settings: printed first")
    ctx.check(got[1] == want[1], "settings: printed second")
    ctx.check(got[2] == want[2], "settings: printed third")
    excl = picks[0]
    if not latex and excl and "lineage" in excl:
        ctx.check(not re.search(r"[A-Za-z]\d*\.[a-z]", got[0]), "settings: without model names")
    elif not latex and "unnecessary lineage" not in excl:
        ctx.check("A" in got[0], "settings: with model names")


def listing(ctx):
    "a set of constraints lists each of them once, in order, under the models and names it's in"
    state = {"n": 0, "leaf": 0}
    leaves = []     # (constraint, [(name, whether quoted) of each level it's under])

    def leaf(path):
        i = state["leaf"] = state["leaf"] + 1
        a, b = X("a%d" % i, "m"), X("b%d" % i, "m")
        form = ctx.choice("leaf%d" % i, 3) if i == 1 else 0
        if form == 0:
            con = a >= number(ctx, "c%d" % i)*b
        elif form == 1:
            con = VectorVariable(2, "v%d" % i, "m") >= VectorVariable(2, "w%d" % i, "m")
        else:
            con = a == b
        leaves.append((con, list(path)))
        return con

    class Part(Model):
        "a part"
        def setup(self, content):
            return content()

    class Piece(Part):
        "another part"

    def node(path, depth, kind=None):
        state["n"] += 1
        if depth == 0:
            return leaf(path)
        if kind is None:
            kind = ctx.choice("node%d" % state["n"], 8)
        if kind == 0:
            return leaf(path)
        if kind == 1:
            return [leaf(path), node(path, depth-1)]
        if kind == 2:
            return ConstraintSet([node(path, depth-1), leaf(path)])
        if kind in (3, 4):
            items = {}
            for k in ("k", "l"):
                sub = node(path+[(k, True)], depth-1) if k == "k" else leaf(path+[(k, True)])
                items[k] = sub
                if isinstance(sub, Model):     # shown by its own name
                    for j, (con, under) in enumerate(leaves):
                        if len(under) > len(path) and under[len(path)] == (k, True):
                            leaves[j] = (con, under[:len(path)]+under[len(path)+1:])
            return items if kind == 3 else ConstraintSet(items)
        if kind >= 5:
            state["models"] = state.get("models", 0) + 1
        if kind == 5:
            return Piece(lambda: [])
        cls = [Part, Piece][kind == 7]
        start = len(leaves)
        made = cls(lambda: [node(["here"], depth-1), leaf(["here"])])
        name, num = made.lineage[-1]
        for j in range(start, len(leaves)):
            con, under = leaves[j]
            leaves[j] = (con, path+[(name+str(num) if num else name, False)]+under[1:])
        return made

    excl = [("units",), (), ("units", "lineage"), ("units", "constraint names")][ctx.choice("excl", 4)]
    latex = ctx.boolean("latex")
    with printing(ctx):
        top = [node([], 2), leaf([])]
        if ctx.boolean("second"):
            top.insert(1, node([], 1, 6))
        whole = Model(X("a1", "m"), top) if ctx.boolean("model") else ConstraintSet(top)
        order = {id(con): n for n, con in enumerate(inorder(top))}
        leaves.sort(key=lambda cp: order[id(cp[0])])
        if latex:
            text = whole.latex(excl)
            want = [con.latex(excl) for con, _ in leaves]
        else:
            text = whole.str_without(excl)
            want = [con.str_without(excl) for con, _ in leaves]
    if latex:
        rows = [ln[6:-3] for ln in text.split("\n") if ln.startswith("    & ") and ln.endswith(" \\\\")]
        if isinstance(whole, Model):
            rows = rows[1:]
        ctx.check([r for r in rows if r.strip()] == want, "listing: every constraint once, in order, in latex")
        return
    lines = text.split("\n")
    if isinstance(whole, Model):
        lines = lines[lines.index("Constraints")+2:]
    under, found = [], []       # [(indent, name, quoted)]
    left = list(want)
    for line in lines:
        if not line.strip() or line.strip() == "(no constraints)":
            continue
        indent = len(line)-len(line.lstrip())
        body = line.strip()
        while under and under[-1][0] >= indent:
            under.pop()
        if left and body == left[0]:
            found.append((left.pop(0), [(n, q) for _, n, q in under]))
        elif re.match(r'^"\w+":$', body):
            under.append((indent, body[1:-2], True))
        else:
            ctx.check(re.match(r"^P(art|iece)\d*$", body), "listing: a model's name")
            under.append((indent, body, False))
            state["models"] = state.get("models", 0) - 1
    ctx.check(not state.get("models", 0), "listing: every model's name")
    ctx.check(not left, "listing: every constraint once, in order")
    for (line, got), (con, path) in zip(found, leaves):
        if "constraint names" in excl:
            path = [p for p in path if not p[1]]
        ctx.check(got == path, "listing: under its models and names")


def inorder(thing):
    "the constraints in something, in order"
    if isinstance(thing, dict):
        thing = thing.values()
    elif not isinstance(thing, (list, tuple)) or hasattr(thing, "oper"):
        return [thing]
    return [c for el in thing for c in inorder(el)]


SETS2 = [["x", "c", "h", "1"], ["y", "c", "n"], ["z", "c", "x"]]
SETS3 = [["x"], ["y", "c"], ["z"], ["w", "c"]]
HARNESSES = []
for nm, shape in (("b(ab)", [[0, 1], 2]), ("(a)bb", [0, [1, 2]]), ("u(b)", [[0, 1]]), ("b(u,a)", [[0], 1]),
                  ("b(a,u)", [0, [1]]), ("u(u)", [[[0]]][0]), ("u(b(a,b))", [[[0, 1], 2]]),
                  ("b(u(b),a)", [[[0, 1]], 2]), ("b(a,u(b))", [0, [[1, 2]]]), ("b(b(u,a),b)", [[[0], 1], 2]),
                  ("b(b(a,u),b)", [[0, [1]], 2]), ("b(a,b(u,b))", [0, [[1], 2]]), ("b(u,u)", [[0], [1]]),
                  ("u(b(u,u))", [[[0], [1]]])):
    HARNESSES.append(Harness("tree-"+nm, tree(shape, SETS2), "every combination of operators over variables, any "
                             "numbers, and a nomial without history", max_paths=20000))
for nm, shape in (("((ab)c)d", [[[0, 1], 2], 3]), ("(a(bc))d", [[0, [1, 2]], 3]), ("(ab)(cd)", [[0, 1], [2, 3]]),
                  ("a((bc)d)", [0, [[1, 2], 3]]), ("a(b(cd))", [0, [1, [2, 3]]])):
    HARNESSES.append(Harness("tree-"+nm, tree(shape, SETS3), "every combination of 3 operators over variables and any "
                             "numbers", max_paths=20000))
for nm, shape in (("u((ab)c)", [[[0, 1], 2]]), ("u(u(b))", [[[[0, 1]]]][0])):
    HARNESSES.append(Harness("latex-"+nm, tree(shape, SETS2, latex=True), "latex of every combination of operators",
                             max_paths=20000))
HARNESSES += [
    Harness("numbers", numbers(), "any number or one of 15 special ones, 7 forms", max_paths=20000),
    Harness("numbers-latex", numbers(True), "any number or one of 15 special ones, 7 forms", max_paths=20000),
    Harness("exponents", exponents(), "21 exponents, 5 forms"),
    Harness("exponents-latex", exponents(True), "21 exponents, 5 forms"),
    Harness("arrays", arrays, "12 arrays, 11 operations on them, 6 reductions", max_paths=20000),
    Harness("matrix", matrix, "10 slices of a 2x3 array, 5 reductions"),
    Harness("constraint", constraint(), "every pair of sides, 3 relations", max_paths=20000),
    Harness("constraint-latex", constraint(True), "every pair of sides, 3 relations", max_paths=20000),
    Harness("units", units, "4 pairs of units, 10 forms"),
    Harness("settings", settings, "10 expressions, arrays and constraints; any 2 of 7 ways of printing, text or latex"),
    Harness("listing", listing, "8 kinds of containers, 2 deep, beside a model; 3 kinds of constraints; 4 ways of "
            "printing, and latex; sets and models", max_paths=20000),
    Harness("lineages", lineages, "two submodels and a variable, any overlap of 4 sets of names", max_paths=20000),
]
