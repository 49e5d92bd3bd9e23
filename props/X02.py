"Bounds declared in docstrings are enforced exactly"
import re
import numpy as np
from .gplib import *
from .G02 import closure, everything, named, sign, start, mono
from gpkit import Model, VectorVariable

NOTE = "the oracle is the least fixpoint of G02, started from the inequalities' bounds and the declared ones"

LAYOUTS = ["comma", "lines", "lines, no blank after", "commas and lines", "indented blank after"]


def section(direction, items, layout, indent="    "):
    "a docstring section listing items"
    head = [direction.title()+" Unbounded", "---------------"]
    if layout == 0:
        body = [", ".join(items)]
    elif layout in (1, 2, 4):
        body = list(items)
    else:
        body = [", ".join(items[:2])+("," if len(items) > 2 else "")]+([", ".join(items[2:])] if items[2:] else [])
    end = [] if layout == 2 else ([indent] if layout == 4 else [""])
    lines = [indent+ln for ln in head+body]+end
    return lines


def docstring(up, low, layout, order):
    lines = ["A model", ""]
    secs = [("upper", up), ("lower", low)]
    if order:
        secs.reverse()
    for d, items in secs:
        if items:
            lines += section(d, items, layout)
            if layout == 2 and (d, items) != secs[-1]:
                lines.append("")
    return "\n".join(lines+["    "])


def instance(doc, build, **attrs):
    "a model with this docstring; build(model) gives its constraints"
    class Declared(Model):
        "replaced"
        def setup(self):
            for k, v in attrs.items():
                setattr(self, k, v)
            return build(self)
    Declared.__doc__ = doc
    return Declared()


def verdict(ctx, doc, build, have, eqs, declared, present, tag, attrs=None, parse=True):
    "accepted iff nothing declared is bounded and nothing else is missing"
    actual = closure(have, eqs)
    wrong = declared & actual
    missing = everything(present)-closure(actual | declared, eqs)
    if "Unbounded" not in doc:
        wrong, missing = set(), set()
    try:
        m = instance(doc, build, **(attrs or {}))
    except ValueError as e:
        msg = str(e)
        ctx.check(bool(wrong or missing), tag+": a correct docstring is accepted")
        if wrong:
            got = set()
            for d in ("lower", "upper"):
                for mat in re.finditer(r"    (.*) (?:was|were) %s-bounded; expected %s-unbounded" % (d, d), msg):
                    got |= {(n.split(".")[-1].strip(), d) for n in mat.group(1).split(", ")}
            if parse:
                ctx.check(got == wrong, tag+": the error names the bounds there should not be")
        elif parse:
            got = {(n.split(".")[-1], d) for n, d in re.findall(r"^  (\S+) has no (\w+) bound", msg, re.M)}
            ctx.check(got == missing, tag+": the error names the missing bounds")
            for line in msg.split("\n"):
                if "these sets" in line:
                    n, d = re.match(r"\s*(\S+) has no (\w+) bound", line).groups()
                    bound = n.split(".")[-1], d
                    for cond in re.findall(r"\[([^]]*)\]", line):
                        extra = {(a.split(".")[-1], b) for a, b in re.findall(r"\(([\w.]+), '(\w+)'\)", cond)}
                        ctx.check(bound in closure(actual | declared | extra, eqs), tag+": offered sets suffice")
                        ctx.check(extra and not extra & closure(actual | declared, eqs),
                                  tag+": offered sets hold nothing there already is")
            for d in ("upper", "lower"):
                hint = re.search(r"%s Unbounded\n-+\n(.*)\n" % d.title(), msg)
                names = set(hint.group(1).split(", ")) if hint else set()
                ctx.check(names == {n for n, dd in missing if dd == d}, tag+": the suggestion is what is missing")
        return
    ctx.check(not wrong, tag+": declared bounds that are provided are refused")
    ctx.check(not missing, tag+": missing bounds are refused")


def subset(ctx, names, name):
    return [n for n in names if ctx.boolean(name+n)]


def h_declared(ctx):
    "an equality of three variables and a bound; any declarations"
    names = "xyz"
    xs = {n: X(n) for n in names}
    e = {"x": ctx.real("e0"), "y": ctx.real("e1"), "z": ctx.nonzero("e2")}
    pattern = [[0, 0, 0], [3, 0, 1]][ctx.choice("pattern", 2)]
    up, low = subset(ctx, names, "u"), subset(ctx, names, "l")
    have, cons = start(ctx, names, xs, pattern)
    ctx.assume(e["x"] != 0) if not pattern[0] and ("x" in up or "x" in low) else None
    eq = mono(xs, e, ctx.pos("c")) == 1
    s = {n: k for n, k in ((n, sign(ctx, v)) for n, v in e.items()) if k}
    present = {n for n, _ in have} | set(s)
    declared = {(n, "upper") for n in up} | {(n, "lower") for n in low}
    verdict(ctx, docstring(up, low, 0, False), lambda m: cons+[eq], have, [s], declared, present, "declared", xs)


def h_ineq(ctx):
    "an inequality of two terms; any exponents, any declarations, a fixed variable"
    names = "xya"
    xs = {n: X(n) for n in names}
    t1 = {"x": ctx.real("e0"), "a": ctx.nonzero("e1")}
    t2 = {"y": ctx.nonzero("e2")}
    fix = ctx.boolean("fix")
    up, low = subset(ctx, names[:2], "u"), subset(ctx, names[:2], "l")
    layout, order = ctx.choice("layout", len(LAYOUTS)), ctx.boolean("order")
    have = set()
    present = set()
    for t in (t1, t2):
        for n, v in t.items():
            k = sign(ctx, v)
            if k:
                present.add(n)
                have.add((n, "upper" if k > 0 else "lower"))
    if fix:
        have |= everything("a")
    lhs = mono(xs, t1, ctx.pos("c"))+mono(xs, t2)
    va = ctx.pos("a")

    def build(m):
        return ([lhs <= 1], {xs["a"]: va}) if fix else [lhs <= 1]
    declared = {(n, "upper") for n in up} | {(n, "lower") for n in low}
    verdict(ctx, docstring(up, low, layout, order), build, have, [], declared, present, "ineq", xs)


def h_outsider(ctx):
    "declared variables that are not in the model make up for nothing"
    x, y, q = X("x"), X("y"), X("q")
    e = ctx.nonzero("e")
    up = ["q"]+subset(ctx, "xy", "u")
    low = subset(ctx, "qxy", "l")
    k = sign(ctx, e)
    have = {("x", "upper" if k > 0 else "lower"), ("y", "upper")}
    declared = {(n, "upper") for n in up} | {(n, "lower") for n in low}
    verdict(ctx, docstring(up, low, 0, False), lambda m: [x**e + y <= ctx.pos("c")], have, [], declared, "xy",
            "outsider", {"x": x, "y": y, "q": q})


def h_conditional(ctx):
    "(if flag) and (if not flag) declarations"
    x, y = X("x"), X("y")
    e = ctx.nonzero("e")
    values = [True, False, 1, 0, "yes", "", None, [0], [], 0.0]
    value = values[ctx.choice("flag", len(values))]
    flag = bool(value)
    cond = ["x", "x (if flag)", "x (if not flag)"][ctx.choice("cond", 3)]
    cond2 = ["y", "y (if flag)", "y (if not flag)"][ctx.choice("cond2", 3)]
    layout = ctx.choice("layout", len(LAYOUTS)) if value in (True, False) else 0
    d = ["upper", "lower"][ctx.choice("direction", 2)]
    k = sign(ctx, e)
    have = {("x", "upper" if k > 0 else "lower"), ("y", "upper" if k > 0 else "lower")}
    items = [cond, cond2]
    on = {(n[0], d) for n in items if "(" not in n or ("not" in n) != flag}
    doc = docstring(items if d == "upper" else [], items if d == "lower" else [], layout, False)
    verdict(ctx, doc, lambda m: [x**e + y**e <= ctx.pos("c")], have, [], on, "xy", "conditional",
            {"x": x, "y": y, "flag": value})


def h_vector(ctx):
    "vectors are declared as a whole; variables of submodels by their dotted name"
    class Sub(Model):
        "part"
        def setup(self):
            self.w = X("w")
            return [self.w >= 1]
    v = VectorVariable(2, "v")
    e = ctx.nonzero("e")
    k = sign(ctx, e)
    items = [i for i in ("v", "part.w") if ctx.boolean("d"+i[0])]
    d = ["upper", "lower"][ctx.choice("direction", 2)]
    cap = ctx.choice("cap", 4)
    sub = {}

    def build(m):
        m.part = sub["s"] = Sub()
        cons = [v**e <= 3, m.part]
        if cap & 1:
            cons.append(v[0]*v[1] == 2)
        if cap & 2:
            cons.append(m.part.w <= 5)
        return cons
    b = "upper" if k > 0 else "lower"
    have = {("v0", b), ("v1", b), ("w", "lower")} | ({("w", "upper")} if cap & 2 else set())
    eqs = [{"v0": 1, "v1": 1}] if cap & 1 else []
    declared = set()
    for i in items:
        declared |= {("v0", d), ("v1", d)} if i == "v" else {("w", d)}
    doc = docstring(items if d == "upper" else [], items if d == "lower" else [], ctx.choice("layout", 2), False)
    verdict(ctx, doc, build, have, eqs, declared, ["v0", "v1", "w"], "vector", {"v": v}, parse=False)


def h_matrix(ctx):
    "matrices, and variables several models down"
    shape = [(2, 2), (3, 2), (2, 1, 2)][ctx.choice("shape", 3)]
    depth = 1 + ctx.choice("depth", 4)
    M = VectorVariable(shape, "M")
    e = ctx.nonzero("e")
    b = "upper" if sign(ctx, e) > 0 else "lower"
    d = ["upper", "lower"][ctx.choice("direction", 2)]
    items = [i for i in ("M", "w") if ctx.boolean("d"+i)]
    odd = ctx.choice("odd", 3)      # an element bounded from both sides, at the start or end

    class Part(Model):
        "one level"
        def setup(self, level):
            if level:
                self.part = Part(level-1)
                return [self.part]
            self.w = X("w")
            return [self.w >= 1]

    def build(m):
        m.part = Part(depth-1)
        cons = [M**e <= 3, m.part]
        if odd:
            cons.append(M.flat[0 if odd == 1 else M.size-1] == 1)
        return cons
    names = {M[i].key: "M"+"".join(map(str, i)) for i in np.ndindex(*shape)}
    have = {(n, b) for n in names.values()} | {("w", "lower")}
    if odd:
        have |= everything([names[M.flat[0 if odd == 1 else M.size-1].key]])
    declared = set()
    for i in items:
        declared |= {(n, d) for n in names.values()} if i == "M" else {("w", d)}
    path = ".".join(["part"]*depth + ["w"])
    items = [path if i == "w" else i for i in items]
    doc = docstring(items if d == "upper" else [], items if d == "lower" else [], 0, False)
    verdict(ctx, doc, build, have, [], declared, list(names.values())+["w"], "matrix", {"M": M}, parse=False)


def h_missing_attr(ctx):
    "declared names that are not attributes are refused"
    x = X("x")
    e = ctx.nonzero("e")
    name = ["z", "x.y", "xx", "part.x"][ctx.choice("name", 4)]
    layout = ctx.choice("layout", len(LAYOUTS))
    doc = docstring([name, "x"], [], layout, False)
    try:
        instance(doc, lambda m: [x**e <= 1], x=x)
        ctx.check(False, "unknown names are refused")
    except AttributeError as err:
        ctx.check(name in str(err), "unknown names are refused, by name")


HARNESSES = [
    Harness("declared", h_declared, "an equality of 3 variables with arbitrary exponents, 2 sets of given bounds, "
            "any of the 64 declarations", max_paths=20000),
    Harness("ineq", h_ineq, "an inequality of 3 variables with arbitrary exponents, a fixed one; 16 declarations in "
            "5 layouts, both orders", max_paths=20000),
    Harness("outsider", h_outsider, "2 variables in the model and one that is not; any declarations"),
    Harness("conditional", h_conditional, "3x3 conditions, 10 values of the flag, 5 layouts"),
    Harness("matrix", h_matrix, "3 shapes, variables 1-4 models down, one element bounded from both sides"),
    Harness("vector", h_vector, "a vector of 2 and a submodel's variable"),
    Harness("unknown", h_missing_attr, "4 unknown names, 5 layouts"),
]
