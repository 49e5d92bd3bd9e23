"Sankey diagrams account for every sensitivity exactly once"
import sys
import types
import numpy as np
from symex.poly import Sym
from .gplib import *
from .textlib import printing
from .D01 import scratch
from .P01 import snapshot
from gpkit import Model
from gpkit.keydict import KeyDict
from gpkit.solution_array import SolutionArray

try:
    import gpkit.interactive.sankey as sankeymod
except ImportError:
    for modname, cls in (("ipywidgets", "Layout"), ("ipysankeywidget", "SankeyWidget")):
        if modname not in sys.modules:
            sys.modules[modname] = types.ModuleType(modname)
        setattr(sys.modules[modname], cls, None)
    import gpkit.interactive.sankey as sankeymod

NOTE = ("the widget is a stand-in that keeps the links it's given; every sensitivity is symbolic, in solutions as "
        "solve() makes them.")

EPS, INSENSITIVE = 1e-10, 1e-2


class Widget:
    "stands in for the widget"
    def __init__(self, nodes, links, **_):
        self.nodes, self.links = nodes, links
        self.click = []

    def auto_save_png(self, name):
        self.png = name

    def auto_save_svg(self, name):
        self.svg = name

    def on_node_clicked(self, f):
        self.click.append(f)
    on_link_clicked = on_node_clicked

    def send_state(self):
        pass


class Leaf:
    "a link expected: of a constraint or fixed variable, or a node of others"
    def __init__(self, title, value=None, kind=None, inside=()):
        self.title, self.val, self.kind, self.inside = title, value, kind, list(inside)

    def total(self):
        return self.val if not self.inside else sum(l.total() for l in self.inside)

    def all(self, path=()):
        "[(path of titles, total, kind)]"
        here = path + (self.title,)
        out = [(here, self.total(), self.kind)]
        for l in self.inside:
            out += l.all(here)
        return out


def build(ctx):
    "a model of every kind of set: (model, {constraint name: constraint}, fixed)"
    kept = {}
    equal = ctx.boolean("equal")
    labelled = not equal
    kept["title"] = "part" if labelled else "Inner"

    class Inner(Model):
        "labels, an array, fixed variables"
        def setup(self):
            self.y = y = X("y")
            X("c", value=3)
            p = VectorVariable(2, "p", "m", value=[2.0, 2.0 if equal else 5.0])
            self.v = v = VectorVariable(2, "v")
            kept.update(first=y >= 2, third=v[0] >= 2*y, arr=v >= y, p=p)
            return {"one": [kept["first"]], "two": [kept["arr"]], "three": kept["third"]}

    class Outer(Model):
        def setup(self):
            s = Inner()
            kept["s"] = s
            self.x = x = X("x")
            kept.update(last=x >= s.y, extra=x >= 3)
            X("c")      # same name as another
            return [{"part": s} if labelled else s, kept["last"], [kept["extra"]]]
    m = Outer()
    return m, kept, equal


def constraints_of(kept):
    out = {"first": kept["first"], "third": kept["third"], "last": kept["last"], "extra": kept["extra"]}
    for i, c in enumerate(kept["arr"]):
        out["arr%d" % i] = c
    return out


STR = {"first": "y ≥ 2", "third": "v[0] ≥ 2·y", "last": "x ≥ y", "extra": "x ≥ 3", "arr0": "v[0] ≥ y", "arr1": "v[1] ≥ y"}


def absolute(v, zero=EPS):
    "as drawn: a number even when there's none"
    a = -abs(v)
    return a if a != 0 else -zero


def solution(ctx, m, kept, symbolic=None):
    cons = constraints_of(kept)
    fixed = {"c": kept["s"].variables_byname("c")[0].key, "p": kept["p"].key}
    senss = {name: ctx.real("s_"+name) if symbolic is None or name in symbolic else 0.5 for name in cons}
    fsens = KeyDict()
    cv = ctx.real("s_c") if symbolic is None or "c" in symbolic else 0.25
    pv = [ctx.real("s_p0") if symbolic is None or "p0" in symbolic else -0.25, 0.125]
    fsens[fixed["c"]] = cv
    fsens[fixed["p"]] = arr(ctx, pv)
    consts = KeyDict({fixed["c"]: 3.0})
    consts[fixed["p"]] = np.array(kept["pvals"])
    variables = KeyDict(consts)
    for vk in m.unique_varkeys | kept["s"].unique_varkeys:
        if not vk.idx and vk not in consts:
            variables[vk] = 1.5
    variables[kept["s"].v.key] = np.array([1.5, 2.5])
    csenss = {c: senss[name] for name, c in cons.items()}
    sol = SolutionArray()
    sol.append({"cost": 1.0, "cost function": m.x, "freevariables": KeyDict(), "constants": consts, "variables": variables,
                "sensitivities": {"cost": KeyDict(), "variables": fsens, "constants": fsens,
                                  "constraints": csenss, "models": {}}})
    sol.to_arrays()
    return sol, senss, cv, pv


def links_of(widget):
    "{(path of titles): (magnitude, colour)} of a diagram's links, and its root"
    titles = {}
    for node in widget.nodes:
        assert node["id"] not in titles
        titles[node["id"]] = node["title"]
    parent = {}
    for link in widget.links:
        assert link["source"] not in parent
        parent[link["source"]] = link["target"]

    def path(node):
        return (path(parent[node]) if node in parent else ()) + (titles[node],)
    return [(path(link["source"]), link["value"], link["color"]) for link in widget.links]


def compare(ctx, widget, want, root, tag, whole=True):
    "the links drawn are those wanted"
    found = links_of(widget)
    got = {}
    for p, v, c in found:
        ctx.check(p not in got, tag+": each link once")
        got[p] = v, c
    have = {(root,) + p if whole else p: (v, kind) for p, v, kind in want}
    if not whole:   # links above these may be missing
        got = {p[-1]: v for p, v in got.items()}
        have = {p[-1]: v for p, v in have.items()}
    ctx.check(set(got) == set(have), tag+": exactly those links (%s)" % sorted(set(got) ^ set(have), key=str))
    for p, (v, c) in got.items():
        signed = have[p][0]
        ctx.eq(v, abs(signed), tag+": its sensitivity")
        if p and any(o[:-1] == p for o in got) or ctx.concrete and abs(abs(signed)-INSENSITIVE) < 1e-9:
            continue
        color = "#cfcfcf" if abs(signed) < INSENSITIVE else "#59ade4" if signed < 0 else "#FA3333"
        ctx.check(c == color, tag+": its colour")


def tree(kept, senss, cv, pv, equal):
    "what a diagram of everything should hold"
    v = {name: absolute(s) for name, s in senss.items()}
    ps = [-abs(e) for e in pv]
    p = [Leaf("p[%d] = %s m" % (i, "%.4g" % kept["pvals"][i]), ps[i], "subarray" if equal else "constraint")
         for i in range(2)]
    if equal:
        p = [Leaf("p = 2 m", kind="constraint", inside=p)]
    inner = Leaf(kept["title"], inside=[
        Leaf("c = 3 ", -abs(cv), "constraint")] + p + [
            Leaf("one", inside=[Leaf(STR["first"], v["first"], "constraint")]),
            Leaf("two", inside=[Leaf("v ≥ y", kind="constraint", inside=[
                Leaf(STR["arr%d" % i], v["arr%d" % i], "subarray") for i in range(2)])]),
            Leaf("three", v["third"])])
    return [inner, Leaf(STR["last"], v["last"], "constraint"), Leaf(STR["extra"], v["extra"], "constraint")]


def drawn(f):
    "runs f with stand-in widgets, in a directory of its own"
    old = sankeymod.SankeyWidget, sankeymod.Layout
    sankeymod.SankeyWidget, sankeymod.Layout = Widget, lambda **k: None
    try:
        with scratch():
            return f()
    finally:
        sankeymod.SankeyWidget, sankeymod.Layout = old


def h_all(ctx):
    "every constraint and fixed variable, summed up the model"
    m, kept, equal = build(ctx)
    kept["pvals"] = [2.0, 2.0 if equal else 5.0]
    symbolic = [("first", "p0"), ("arr0", "arr1"), ("third", "c"), ("last", "extra")][ctx.choice("which", 4)]
    sol, senss, cv, pv = solution(ctx, m, kept, symbolic)
    before = snapshot(sol)
    descrs = {vk: dict(vk.descr) for vk in sol["variables"]}
    minsenss = [0, 0.25][ctx.choice("minsenss", 2)]
    twice = ctx.boolean("twice") if not minsenss else False

    def draw():
        s = sankeymod.Sankey(sol, m)
        if twice:
            s.diagram(m.x)
            s.diagram()
        return s.diagram(minsenss=minsenss, maxlinks=50)
    with printing(ctx):
        widget = drawn(draw)
    ctx.check(snapshot(sol) == before, "all: drawing changes nothing")
    ctx.check(all(dict(vk.descr) == d for vk, d in descrs.items()), "all: names are left as they were")
    want = [l for leaf in tree(kept, senss, cv, pv, equal) for l in leaf.all()]
    if minsenss:
        ctx.check(len({p[-1] for p, _, _ in want}) == len(want), "titles differ")
    want = [(p, v, kind) for p, v, kind in want if abs(v) > minsenss]
    compare(ctx, widget, want, "Outer", "all", whole=not minsenss)


def h_variable(ctx):
    "the constraints on one variable, and the cost"
    m, kept, equal = build(ctx)
    kept["pvals"] = [2.0, 2.0 if equal else 5.0]
    sol, _, _, _ = solution(ctx, m, kept, ())
    y, x = kept["s"].y, m.x
    which = ctx.boolean("which")
    var = y if which else x
    cons = constraints_of(kept)
    depend = {"first", "third", "arr0", "arr1", "last"} if which else {"last", "extra"}
    some = {"first", "last"} if ctx.boolean("some") else {"third", "arr1", "extra"}
    vals = {}
    for i, name in enumerate(sorted(cons)):
        cons[name].v_ss = {}
        if name in depend:
            vals[name] = (ctx.pos if name in ("last", "third") and which else ctx.real)("d%d_" % which + name) if name in some else 0.25*(i+1)*(-1)**i
            cons[name].v_ss[var.key] = vals[name]
    incost = ctx.boolean("incost")
    bare = not incost     # constraints that weren't in the program
    if bare:
        cons["last"].v_ss = None
        vals["last"] = EPS
    if incost:
        sol["sensitivities"]["cost"][var.key] = cost = ctx.pos("cost")
    before = snapshot(sol)
    with printing(ctx):
        widget = drawn(lambda: sankeymod.Sankey(sol, m).diagram(var, maxlinks=50))
    ctx.check(snapshot(sol) == before, "variable: drawing changes nothing")
    v = {name: (val if val != 0 else EPS) for name, val in vals.items()}
    v.update({name: 0 for name in cons if name not in vals})
    inner = Leaf(kept["title"], inside=[
        Leaf("one", inside=[Leaf(STR["first"], v["first"])]),
        Leaf("two", inside=[Leaf("v ≥ y", inside=[Leaf(STR["arr%d" % i], v["arr%d" % i]) for i in range(2)])]),
        Leaf("three", v["third"])])
    top = Leaf("Outer", inside=[inner, Leaf(STR["last"], v["last"]), Leaf(STR["extra"], v["extra"])])
    want = top.all()
    if incost:
        want.append((("[cost function]",), cost, None))
    name = var.key.name
    leaves = [p for p, _, kind in want if not any(w[0][:-1] == p for w in want)]
    if any(abs(val) < 1e-6 for p, val, _ in want if p not in leaves and type(val) is not int):
        return  # a node's total is zero, though its parts aren't
    want = [(p, val, kind) for p, val, kind in want if val != 0]
    compare(ctx, widget, want, name, "variable")


def fewer(links, most, shown):
    "the links kept when there may be only so many"
    def drop(f):
        links[:] = [l for l in links if not f(*l)]
    if not shown:
        drop(lambda p, v, kind: kind)
    if len(links) > most:
        drop(lambda p, v, kind: kind == "subarray")
    if len(links) > most:
        drop(lambda p, v, kind: kind and abs(v) <= INSENSITIVE)
    for depth in (4, 3, 2):
        if len(links) > most:
            drop(lambda p, v, kind: len(p) >= depth)
    if len(links) > most:
        drop(lambda p, v, kind: kind)
    return links


def h_fewer(ctx):
    "when there are too many links, those left out"
    m, kept, equal = build(ctx)
    kept["pvals"] = [2.0, 2.0 if equal else 5.0]
    symbolic = [("first", "last"), ("arr0", "c")][ctx.choice("which", 2)]
    sol, senss, cv, pv = solution(ctx, m, kept, symbolic)
    most = [1, 3, 5, 7, 9, 12, 14][ctx.choice("most", 7)]
    shown = ctx.boolean("showconstraints")
    with printing(ctx):
        widget = drawn(lambda: sankeymod.Sankey(sol, m).diagram(maxlinks=most, showconstraints=shown))
    want = [l for leaf in tree(kept, senss, cv, pv, equal) for l in leaf.all()]
    want = fewer([l for l in want if abs(l[1]) > 0], most, shown)
    compare(ctx, widget, want, "Outer", "fewer", whole=False)


HARNESSES = [
    Harness("all", h_all, "a model in a model, with labelled constraints, an array and 3 fixed values; any sensitivities (2 "
            "at a time); 2 thresholds, drawn once or thrice"),
    Harness("variable", h_variable, "2 variables of that model, any sensitivities of 3 constraints and the cost"),
    Harness("fewer", h_fewer, "7 limits, with and without constraints; any 2 sensitivities"),
]
