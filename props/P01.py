"Printed tables show what the solution holds"
import copy
import numpy as np
import gpkit.solution_array as samod
from symex.poly import Sym
from .gplib import *
from .textlib import Text, printing
from .D01 import swept_model, fullname, scratch
from gpkit import NamedVariables
from gpkit.keydict import KeyDict
from gpkit.nomials import NomialArray
from gpkit.solution_array import SolutionArray

NOTE = ("every number printed is symbolic and written as a two-digit number standing for it, which is looked up again when "
        "the text is read; the order and choice of rows are decided by the symbolic numbers.")


class Short(Text):
    "numbers stand-ins that survive any of the tables' formats"
    def sentinel(self, sym):
        if sym.isconst():
            return float(sym.constval())
        for s, v in self.known:
            if s.num.key() == sym.num.key() and s.den == sym.den:
                return v
        n = len(self.known)
        v = (11 + n % 89)*100.0*10**(n//89)
        if sym < 0:
            self.table[v] = -sym
            v = -v
        else:
            self.table[v] = sym
        self.known.append((sym, v))
        return v

    def number(self, txt):
        num = float(txt)
        for v, s in self.table.items():
            if abs(abs(num) - v) < 1e-6*v:
                return s if num > 0 else -s
        return num


def writing(ctx):
    "printing, after which numbers in the text can be read"
    import contextlib

    @contextlib.contextmanager
    def run():
        text = Short(ctx)
        with printing(ctx, ints=True) as standard:
            if ctx.concrete:
                yield text
                return
            standard.sentinel = text.sentinel
            text.ints = standard.ints
            real = vars(samod)["float"]
            vars(samod)["float"] = lambda v: text.number(v) if isinstance(v, str) else real(v)
            try:
                yield text
            finally:
                vars(samod)["float"] = real
    return run()


def same(ctx, text, got, want, rel, tag, absol=0):
    "a printed number is the one wanted (up to the digits printed)"
    if got == "-":
        ctx.check(want != want, tag+": hidden")
    elif ctx.concrete or type(want) is not Sym:
        ctx.check(abs(float(got) - want) <= rel*abs(want) + absol + 1e-300, tag)
    else:
        ctx.eq(text.number(got), want, tag)


def sections(txt):
    "[(title, lines)] of a table"
    lines, out = txt.split("\n"), []
    for i, line in enumerate(lines):
        if i+1 < len(lines) and line and not line.startswith("-") and set(lines[i+1]) == {"-"}:
            out.append((line, []))
        elif out and not (i and set(line) == {"-"} and lines[i-1] == out[-1][0]):
            out[-1][1].append(line)
    return out


class Row:
    "of a table"
    def __init__(self, model, name):
        self.model, self.name = model, name
        self.nums, self.unit, self.label, self.vector = [], "", "", False


def rows(ctx, lines, tag):
    "the rows of a table of variables"
    out, model, models = [], "", []
    for line in lines:
        if not line.strip():
            continue
        if line.lstrip().startswith("| "):
            model = line.split("| ", 1)[1]
            ctx.check(model not in models, tag+": each model once")
            models.append(model)
            continue
        if " : " in line:
            name, rest = line.split(" : ", 1)
            out.append(Row(model, name.strip()))
            rest = rest.strip()
            out[-1].vector = rest.startswith("[ ")
            done = not out[-1].vector
            if out[-1].vector:
                rest = rest[1:]
        else:
            ctx.check(bool(out) and out[-1].vector and not done, tag+": a line of numbers belongs to a vector")
            rest = line.strip()
        if out[-1].vector:
            if "]" in rest:
                if done is False and "[" not in rest.split("]")[0]:
                    nums, rest = rest.split("]", 1)
                    done = True
                else:   # units, on the first line of many
                    nums, rest = rest.split("[", 1)
                    rest = "["+rest
                out[-1].nums += nums.split()
            else:
                parts, rest = rest.split(), ""
                while parts and isnumber(parts[0]):
                    out[-1].nums.append(parts.pop(0))
                rest = " ".join(parts)
        else:
            num, _, rest = rest.partition(" ")
            out[-1].nums.append(num)
        rest = rest.strip()
        if rest.startswith("["):
            unit, rest = rest[1:].split("]", 1)
            out[-1].unit = unit
        if rest.strip():
            out[-1].label = rest.strip()
    return out


def isnumber(s):
    if s == "-":
        return True
    try:
        float(s.rstrip("%"))
        return True
    except ValueError:
        return False


def arranged(ctx, text, got, want, rel, tag, absol=0, first=False, lines=None):
    "the elements of an array (or the first of them), one dimension (any) along the lines"
    ctx.check(0 < len(got) <= want.size if first else len(got) == want.size, tag+": each element once")
    orders = [want.flatten()]
    if lines and lines != want.shape[-1] and lines != 1:
        orders = []
    for d in range(want.ndim-1):
        if lines not in (None, 1, want.shape[d]):
            continue
        order = [e for e in range(want.ndim) if e != d]+[d]
        orders.append(want.transpose(order).flatten())
    ways = []
    for order in orders:
        ok = True
        for g, w in zip(got, order):
            if g == "-" or w != w:
                ok &= (g == "-") == bool(w != w)
            elif ctx.concrete or type(w) is not Sym:
                ok &= type(text.number(g)) is not Sym and abs(float(g) - w) <= rel*abs(w) + absol
            else:
                diff = Sym.coerce(text.number(g)) - w
                ok &= diff.isconst() and diff.constval() == 0
        ways.append(bool(ok))
    if any(ways):
        return
    for g, w in zip(got, orders[0]):
        same(ctx, text, g, w, rel, tag, absol)


def ascending(ctx, want):
    "the elements of each vector ascend (the code looks for the largest)"
    for kind, _, vals in want.values():
        flat = list(np.stack([np.array(v, dtype=object) for v in vals[:1 if kind == "const" else None]]).flatten())
        for a, b in zip(flat, flat[1:]):
            if a is not b and type(a) is type(b) is Sym and a.num.key() != b.num.key():
                ctx.assume(b > a)


def h_values(ctx):
    "the values of a real solution or sweep, all or some"
    n = 1 + ctx.choice("n", 3)
    sol, want = swept_model(ctx, n)
    ascending(ctx, want)
    by = {fullname(key): key for key in want}
    chosen = ctx.choice("show", 5)
    show = [(), ["x", "nothing"], [by["A.x"], "M"], ["A.v", by["A.z"], "k"], [by["B.v"], "h"]][chosen]
    shown = [set(by), {"A.x", "A.S.x", "B.x"}, {"A.x", "M"}, {"A.v", "A.z", "k"}, {"B.v", "h"}][chosen]
    tables = [("sweepvariables", "freevariables", "constants"), ("variables",)][ctx.choice("tables", 2)]
    by_senss = ctx.boolean("sortmodelsbysenss") if n == 1 and chosen < 2 else False
    latex = ctx.choice("latex", 4) if n < 3 and chosen in (0, 3) and not by_senss else 0
    picked = ctx.choice("models", 4) if chosen == 0 and not latex and not by_senss else 0
    kw = [{}, {"included_models": ["A"]}, {"excluded_models": ["A"]}, {"included_models": ["A.S", "B"],
                                                                     "excluded_models": ["B"]}][picked]
    if picked:
        models = [None, {"A", ""}, {"A.S", "B", ""}, {"A.S", ""}][picked]
        shown = {f for f in shown if f.rpartition(".")[0] in models}
    before = snapshot(sol)
    with writing(ctx) as text:
        given = sol.table(show, tables, sortmodelsbysenss=by_senss, latex=latex, **kw)
        ctx.check(snapshot(sol) == before, "values: printing changes nothing")
        again = sol.table(show, tables, sortmodelsbysenss=by_senss, latex=latex, **kw)
    ctx.check(again == given, "values: twice the same")
    for d in (sol["variables"], sol["freevariables"], sol["constants"]):
        ctx.check("nothing" not in d, "values: looking for a variable that isn't there")
    ctx.check(not any("necessarylineage" in key.descr for key in want), "values: names as before")
    titles = {"Swept Variables": ("swept",) if n > 1 else (), "Free Variables": ("free",),
              "Fixed Variables": ("const", "swept") if n == 1 else ("const",), "Variables": ("free", "const", "swept")}
    seen = {}
    if latex:
        found = latex_sections(given)
    else:
        found = sections(given)
    for title, lines in found:
        ctx.check(title in titles, "values: sections")
        part = latex_rows(ctx, lines, latex) if latex else rows(ctx, lines, "values")
        for row in part:
            f = ".".join(([row.model] if row.model else []) + [row.name])
            ctx.check(f in shown, "values: the variables asked for")
            ctx.check(f not in seen, "values: each once")
            seen[f] = row
            kind, shape, vals = want[by[f]]
            ctx.check(kind in titles[title], "values: in their section")
            if latex != 2:
                ctx.check(len(row.nums) > 0, "values: every one has numbers")
                whole = np.stack([np.array(v, dtype=object) for v in vals]) if n > 1 else \
                    np.array(vals[0], dtype=object)
                if n > 1 and kind == "const" and len(row.nums) == int(np.prod(shape)):
                    whole = np.array(vals[0], dtype=object)   # the same at each point
                arranged(ctx, text, row.nums, whole, 6e-3, "values: %s" % f, first=bool(latex))
            if not latex:
                ctx.check(row.unit == by[f].unitstr(), "values: units")
                ctx.check(row.label == (by[f].descr.get("label") or ""), "values: label")
            elif latex < 3:
                ctx.check(row.label == (by[f].descr.get("label") or ""), "values: label")
            if latex:
                ctx.check(row.unit == by[f].latex_unitstr(), "values: units")
    ctx.check(set(seen) == shown, "values: all of them")


def latex_sections(txt):
    out = []
    for part in txt.split("\\toprule\n")[1:]:
        head, body = part.split("\\midrule\n")
        out.append((head.split(" & ")[0], body.split("\\bottomrule")[0].strip().split("\n")))
    return out


def latex_rows(ctx, lines, latex):
    out, model = [], ""
    for line in lines:
        if "\\textbf{" in line:
            model = line.split("\\textbf{")[1].split("}")[0]
            continue
        if not line.strip(" &\\"):
            continue
        ctx.check(line.endswith("\\\\"), "latex: lines end")
        cells = [c.strip() for c in line[:-2].split(" & ")]
        ctx.check(len(cells) == {1: 4, 2: 3, 3: 3}[latex], "latex: columns")
        row = Row(model, cells.pop(0).strip("$").strip())
        if latex != 2:
            row.nums = cells.pop(0).replace("[", " ").replace("]", " ").split()
        row.unit = cells.pop(0)[1:-1]
        if latex < 3:
            row.label = cells.pop(0)
        out.append(row)
    return out


def snapshot(sol):
    "what's in the solution"
    def walk(d):
        return [(id(k) if hasattr(k, "left") else k, walk(v) if isinstance(v, dict) else
                 [id(e) for e in v.flat] if getattr(v, "dtype", None) == object else repr(v) if not isinstance(v, Sym)
                 else id(v)) for k, v in d.items()]
    return walk(sol)


def variables(ctx):
    "variables of several models, some sharing names"
    with NamedVariables("A"):
        xa, v = X("x", "m"), VectorVariable(2, "v", "ft", "vector label")
    with NamedVariables("B"):
        xb = X("x", "m")
    return {"A.x": xa, "A.v": v, "B.x": xb, "c": X("c", "1/m", "its label"), "k": VectorVariable(2, "k")}


def made(ctx, n, senss, model_senss=(), cons=(), fixed=("c", "k"), values=None, ks=None):
    "a solution with given sensitivities: {name: [of each point]}"
    ks = ks or variables(ctx)
    sol = SolutionArray()
    for t in range(n):
        free, const, sens = KeyDict(), KeyDict(), KeyDict()
        for name, var in ks.items():
            where = const if name in fixed else free
            val = values[name][t] if values else 2.0 if not var.key.shape else np.array([2.0, 3.0])
            if val is None:
                continue
            where[var.key] = val
            if name in senss:
                sens[var.key] = senss[name][t]
        allv = KeyDict(free)
        allv.update(const)
        sol.append({"cost": 1.0, "cost function": ks["A.x"], "freevariables": free, "constants": const,
                    "variables": allv, "sensitivities": {
                        "cost": sens, "variables": sens, "constants": sens,
                        "constraints": {c: s[t] for c, s in cons},
                        "models": {m: s[t] for m, s in model_senss}}})
    sol.to_arrays()
    return sol, ks


def magnitude(ctx, v):
    "how sensitivities are sorted: the mean of their magnitudes"
    vals = list(np.array(v, dtype=object).flatten())
    return sum(abs(e) for e in vals)/len(vals)


def h_senss(ctx):
    "the sensitivities of the variables asked for that are above the threshold, largest first"
    vec = ctx.boolean("vec")
    a, b, c = ctx.real("a"), ctx.real("b"), ctx.real("c")
    vals = {"A.x": [a], "B.x": [0.5], "c": [b], "k": [arr(ctx, [c, -0.25])] if vec else [np.array([0.25, 0.125])]}
    if not vec:
        vals["B.x"] = [c]
    sol, ks = made(ctx, 1, vals)
    chosen = ctx.choice("show", 3)
    show = [(), ["x", "c"], [ks["k"], "B.x"]][chosen]
    asked = [set(vals), {"A.x", "B.x", "c"}, {"k", "B.x"}][chosen]
    before = snapshot(sol)
    with writing(ctx) as text:
        given = sol.table(show, ("sensitivities",))
    ctx.check(snapshot(sol) == before, "senss: printing changes nothing")
    found = sections(given)
    listed = sensitivity_rows(ctx, text, found, "Variable Sensitivities", vals, asked, 1e-3, "senss")
    for name in asked:
        threshold(ctx, name in listed, vals[name][0], 1e-3, "senss: those above the threshold")


def threshold(ctx, shown, value_, tol, tag):
    "a row is shown exactly when its largest magnitude is above tol"
    vals = list(np.array(value_, dtype=object).flatten())
    within = [e <= tol for e in vals] + [-e <= tol for e in vals]
    if shown:
        ctx.refute(within, tag)
    else:
        for w in within:
            ctx.check(w, tag)


def sensitivity_rows(ctx, text, found, title, vals, may, minval, tag, hide=False):
    "reads a section of sensitivities: {name: row}"
    if not found:
        return {}
    ctx.check([t for t, _ in found] == [title], tag+": title")
    listed, last = {}, None
    for row in rows(ctx, found[0][1], tag):
        f = ".".join(([row.model] if row.model else []) + [row.name])
        ctx.check(f in may and f not in listed, tag+": each variable once")
        val = vals[f][0]
        want = np.array(val, dtype=object)
        if hide and want.shape:
            want = np.array([e if abs(e) > minval else np.nan for e in want], dtype=object)
        arranged(ctx, text, row.nums, want, 0.06, tag+": value")
        size = magnitude(ctx, [e for e in want.flatten() if e == e] if hide else val)
        if last and last[0] == row.model:
            # in decreasing order (printed to 4 digits)
            ctx.check(last[1]*1.001 + 3e-9 >= size, tag+": largest first")
        last = row.model, size
        listed[f] = row
    return listed


def h_top(ctx):
    "the most sensitive of those not yet shown, and the insensitive ones"
    a, b, c = ctx.real("a"), ctx.pos("b"), ctx.pos("c")
    vals = {"A.x": [a], "B.x": [b], "c": [c], "A.v": [np.array([0.5, -0.25])], "k": [np.array([0.0625, 0.03125])]}
    sol, ks = made(ctx, 1, vals)
    if ctx.boolean("top"):
        nvars = [0, 1, 2, 4][ctx.choice("nvars", 4)]
        show = [(), ["c"], ["x"]][ctx.choice("show", 3)]
        seen = set() if not show else {"c"} if show == ["c"] else {"A.x", "B.x"}
        with writing(ctx) as text:
            given = sol.table(show, ("top sensitivities",), nvars=nvars)
        left = nvars
        for _ in seen:
            left -= left > 3    # always room for 3
        listed = sensitivity_rows(ctx, text, sections(given), "Next Most Sensitive Variables" if seen else
                                  "Most Sensitive Variables", vals, set(vals)-seen, 1e-3, "top", hide=True)
        ctx.check(len(listed) <= left, "top: no more than asked for")
        for name in set(vals)-seen:
            if name in listed:
                threshold(ctx, True, vals[name][0], 1e-3, "top: those above the threshold")
            elif len(listed) < left and name not in listed:
                tops = [o for o in set(vals)-seen if o not in listed]
                if len(tops)+len(listed) <= left:
                    threshold(ctx, False, vals[name][0], 1e-3, "top: the others are below the threshold")
                else:   # some of the top ones are below it
                    threshold(ctx, False, vals[name][0], 1e-3, "top: the others are below the threshold")
            else:
                for other in listed:
                    ctx.check(magnitude(ctx, vals[other][0]) >= magnitude(ctx, vals[name][0]) - 1e-12,
                              "top: none of the others is larger")
    else:
        maxval = [0.1, 0.375][ctx.choice("maxval", 2)]
        with writing(ctx) as text:
            given = sol.table((), ("insensitivities",), maxval=maxval)
        listed = sensitivity_rows(ctx, text, sections(given), "Insensitive Fixed Variables", vals, set(vals), 1e-3,
                                  "insensitive")
        for name in vals:
            size = magnitude(ctx, vals[name][0])
            if name in listed:
                ctx.check(size < maxval, "insensitive: only those below")
            else:
                ctx.refute([size < maxval, size > 1e-3], "insensitive: all of those below")


def constraint_rows(ctx, lines, names, tag):
    "[(number, constraint's name)] of a section of constraints"
    out, model = [], ""
    for line in lines:
        if not line.strip():
            continue
        if line.lstrip().startswith("|"):
            model = line.split("|", 1)[1].strip()
            continue
        if line.strip() == "(none)":
            ctx.check(not out, tag+": none")
            continue
        num, con = line.split(" : ", 1)
        hits = [name for name, (m, s) in names.items() if s == con.strip() and m == model]
        ctx.check(len(hits) == 1, tag+": constraints as written, under their models")
        out.append((num.strip(), hits[0]))
    return out


def h_constraints(ctx):
    "the most and least sensitive constraints"
    n = 1 + ctx.choice("n", 2)
    x, y, z, area = X("x"), X("y"), X("z"), X("rAd")
    ks = variables(ctx)
    c0, c1 = ks["A.x"] >= y*ks["B.x"], area >= 2*z
    c0.lineage = c1.lineage = ks["A.x"].key.lineage
    c2, c3 = z >= 3, 4*z >= x + y
    names = {"c0": ("A", ".x ≥ y·B.x"), "c1": ("A", "rAd ≥ 2·z"), "c2": ("", "z ≥ 3"), "c3": ("", "4·z ≥ x + y")}
    cons = {"c0": c0, "c1": c1, "c2": c2, "c3": c3}
    senss = {name: [0.5]*(n-1) + [ctx.pos("s"+name)] for name in cons}
    senss["c1"] = [0.25]*(n-1) + [[0.06, 0.0][ctx.choice("c1", 2)]]
    sol, _ = made(ctx, n, {}, cons=[(cons[name], senss[name]) for name in cons], ks=ks)
    last = {name: s[-1] for name, s in senss.items()}
    tight = ctx.boolean("tight")
    if tight:
        most, tol = 1+ctx.choice("most", 4), [1e-2, 0.5][ctx.choice("tol", 2)]
        kw = dict(ntightconstrs=most, tight_senss=tol)
    else:
        kw = dict(min_senss=[1e-5, 0.5][ctx.choice("tol", 2)])
    with writing(ctx) as text:
        given = sol.table((), ("tightest constraints" if tight else "loose constraints",), **kw)
    (title, lines), = sections(given)
    want = "Most Sensitive Constraints" if tight else "Insensitive Constraints |below %+g|" % kw["min_senss"]
    ctx.check(title == want + (" (in last sweep)" if n > 1 else ""), "constraints: title")
    found = constraint_rows(ctx, lines, names, "constraints")
    listed = [name for _, name in found]
    ctx.check(len(set(listed)) == len(listed), "constraints: each once")
    if not tight:
        for name, s in last.items():
            (ctx.check if name in listed else lambda c, t: ctx.refute([c], t))(
                s <= kw["min_senss"], "constraints: exactly the insensitive ones")
        return
    ctx.check(len(listed) <= most, "constraints: no more than asked for")
    prev, slack = None, 1.06 if ctx.concrete else 1
    for num, name in found:
        same(ctx, text, num, last[name], 0.06, "constraints: their sensitivity")
        ctx.check(last[name] >= tol, "constraints: only sensitive ones")
        if prev and names[prev][0] == names[name][0]:
            ctx.check(last[prev]*slack >= last[name], "constraints: most sensitive first")
        prev = name
    for name in set(last) - set(listed):
        if len(listed) < most:
            ctx.check(last[name] < tol, "constraints: all sensitive ones")
        else:
            for other in listed:
                ctx.check(last[other]*slack >= last[name], "constraints: the most sensitive ones")


def h_models(ctx):
    "the sensitivities of models"
    n = 1 + ctx.choice("n", 2)
    names = ["A", "B", ""]
    vals = {}
    for m in names:
        if n == 1:
            vals[m] = [np.array(ctx.pos("s"+m), dtype=object) if not ctx.concrete else np.float64(ctx.pos("s"+m))]
        else:
            vals[m] = [ctx.pos("s"+m+str(t)) for t in range(n)]
    sol, _ = made(ctx, n, {}, model_senss=list(vals.items()))
    if n == 1:
        sol["sensitivities"]["models"] = {m: v[0] for m, v in vals.items()}
    with writing(ctx) as text:
        given = sol.table((), ("model sensitivities",))
    lines = [l for l in given.split("\n") if l][2:]
    ctx.check(len(lines) == 2, "models: those that have names")
    prev = None
    for line in lines:
        num, m = [s.strip() for s in line.split(" : ")]
        ctx.check(m in ("A", "B"), "models: names")
        new = [v if n > 1 else v[()] for v in vals[m]]
        mean = sum(new)/n
        if prev:
            ctx.check(prev[0] != m, "models: each once")
            ctx.check(prev[1] >= mean, "models: most sensitive first")
        prev = m, mean
        if num.startswith("<1E"):
            for v in new:
                ctx.check(v < 0.1, "models: insensitive")
            most = new[0] if n == 1 or new[0] >= new[1] else new[1]
            if ctx.concrete:
                ctx.check(int(num[3:]) == int(np.log10(most)), "models: order of magnitude")
            else:
                of = text.cut(num[3:])[0]
                ctx.eq(of, NP_log10(ctx, most), "models: order of magnitude")
        elif n == 1:
            same(ctx, text, num, new[0], 1e-3, "models: value", 0.051)
            ctx.check(new[0] >= 0.1, "models: sensitive")
        else:
            head, deltas = num.split(" + [")
            same(ctx, text, head.strip(), mean, 1e-3, "models: mean", 0.051)
            deltas = deltas.rstrip("] ").split()
            ctx.check(len(deltas) == n, "models: each point")
            for d, v in zip(deltas, new):
                if d == "-":
                    ctx.check(v - mean < 0.1, "models: close to the mean")
                    ctx.check(mean - v < 0.1, "models: close to the mean")
                else:
                    same(ctx, text, d, v - mean, 1e-3, "models: difference from the mean", 0.051)


def NP_log10(ctx, v):
    import math
    return ctx.log(v)/math.log(10)


def h_diff(ctx):
    "what differs between two solutions"
    kind = ctx.choice("kind", 3)
    tol = [[1.0, 50.0], [0.0, 0.5], [0.1, 0.5]][kind][ctx.choice("tol", 2)]
    pos = ctx.pos
    vals, other, senss, osenss = {}, {}, {}, {}
    only = ctx.choice("only", 4)   # neither, one, or the other has the variable c; each has one
    alone = {1: ({"c"}, set()), 2: (set(), {"c"}), 3: ({"c"}, {"A.v"})}.get(only, (set(), set()))
    vec = ctx.boolean("vec")
    for i, (name, size) in enumerate((("A.x", 1), ("B.x", 1), ("A.v", 2), ("c", 1), ("k", 2))):
        free = name == "A.x" or vec and name == "A.v" or not vec and name == "B.x"
        if size == 1:
            vals[name], other[name] = [pos("a"+name) if free else 2.0], [pos("b"+name) if free and kind != 2 else 2.0]
            senss[name] = [ctx.real("s"+name) if free and kind == 2 else 0.5]
            osenss[name] = [ctx.real("r"+name) if free and kind == 2 else 0.5]
        else:
            vals[name] = [arr(ctx, [pos("a"+name), 3.0]) if free else np.array([2.0, 3.0])]
            other[name] = [arr(ctx, [4.0, 4.0]) if free and kind != 2 else np.array([2.0, 3.0])]
            senss[name] = [arr(ctx, [ctx.real("s"+name), 0.5]) if free and kind == 2 else np.array([0.5, 0.25])]
            osenss[name] = [np.array([0.5, 0.25])]
    for of, ss, names in ((other, osenss, alone[0]), (vals, senss, alone[1])):
        for name in names:
            of[name] = [None]
            del ss[name]
    ks = variables(ctx)
    if kind == 2:   # a solution without a sensitivity for a variable means zero
        without = ctx.choice("without", 3)
        gone = ["A.x", "k"] if vec else ["k"]
        (osenss if without == 2 else senss if without else {}).update({name: None for name in gone})
    given_sens = [{name: v for name, v in ss.items() if v} for ss in (senss, osenss)]
    for ss, ref in ((senss, vals), (osenss, other)):
        for name, v in ss.items():
            if v is None:
                ss[name] = [0*np.ones(np.shape(ref[name][0]))[()]]
    one, _ = made(ctx, 1, given_sens[0], values=vals, ks=ks)
    two, _ = made(ctx, 1, given_sens[1], values=other, ks=ks)
    kws = [dict(reldiff=True, reltol=tol), dict(reldiff=False, absdiff=True, abstol=tol),
           dict(reldiff=False, senssdiff=True, sensstol=tol)][kind]
    before, obefore = snapshot(one), snapshot(two)
    show = [None, ["x", "c"]][ctx.choice("show", 2)]
    with writing(ctx) as text:
        given = one.diff(two, show, sortmodelsbysenss=False, **kws)
    ctx.check(snapshot(one) == before and snapshot(two) == obefore, "diff: changes neither")
    lines = given.split("\n")
    for which, head in ((1, "Variable(s) of this solution which are not in the argument:"),
                        (2, "Variable(s) of the argument which are not in this solution:")):
        there = sorted(name for name in alone[which-1] if not show or name in ("A.x", "B.x", "c"))
        ctx.check((head in lines) == bool(there), "diff: variables only one of them has")
        if head in lines:
            after = lines[lines.index(head)+1:]
            ctx.check([l.strip().replace("[:]", "") for l in after[:after.index("")]] == there, "diff: variables only one of them has")
    title = ["Relative Differences |above %g%%|", "Absolute Differences |above %g|",
             "Sensitivity Differences |above %g|"][kind] % tol
    (part,) = [ls for t, ls in sections(given) if t == title]
    shared = [name for name in vals if name not in alone[0] | alone[1]]
    if show:
        shared = [name for name in shared if name in ("A.x", "B.x", "c")]
    deltas = {}
    for name in shared:
        a, b = np.array(vals[name][0], dtype=object), np.array(other[name][0], dtype=object)
        if kind == 0:
            d = 100*(a/b - 1)
        elif kind == 1:
            d = a - b
        else:
            d = np.array(senss[name][0], dtype=object) - np.array(osenss[name][0], dtype=object)
        deltas[name] = np.array(d, dtype=object)
    largest = [l for l in part if l.startswith("The largest is")]
    body = [l for l in part if not l.startswith("The largest is")]
    listed = {}
    for row in rows(ctx, body, "diff"):
        f = ".".join(([row.model] if row.model else []) + [row.name])
        ctx.check(f in shared and f not in listed, "diff: each variable once")
        listed[f] = row
        d = deltas[f]
        if d.shape:
            d = np.array([e if not tol or abs(e) > tol else np.nan for e in d], dtype=object)
        arranged(ctx, text, [t.rstrip("%") for t in row.nums], d, 0.06, "diff: by how much", 0.06 if kind != 1 else 0)
    for name in shared:
        threshold(ctx, name in listed, deltas[name], tol, "diff: exactly those that differ by more")
    if not listed and not tol:
        return
    ctx.check(bool(largest) == (not listed), "diff: the largest when none is above")
    if largest:
        num = largest[0][len("The largest is "):].rstrip(".").rstrip("%")
        got = float(num) if ctx.concrete else text.number(num)
        for name in shared:
            for e in deltas[name].flatten():
                ctx.check(abs(got) + (1e-4*abs(got) + 1e-12 if ctx.concrete else 0) >= abs(e), "diff: largest")


def csv_rows(ctx, lines, valcols, shown, by):
    "{variable: its numbers, in the order written}"
    head = lines.pop(0).split(",")
    cols = len(head) - 4
    ctx.check(head[:3] == ["Model Name", "Variable Name", "Value(s)"], "csv: header")
    ctx.check(head[-2:] == ["Units", "Description"] and 1 <= cols <= valcols, "csv: header")
    model, cur, seen = "", None, {}
    for line in lines:
        if not line.strip():
            continue
        cells = line.split(",")
        if len(cells) == 1 or cells[0]:
            ctx.check(len(cells) <= 5+cols, "csv: columns")
            model = cells[0]
            if len(cells) == 1:
                continue
            cells[0] = ""
        ctx.check(len(cells) == len(head), "csv: columns")
        nums = [c for c in cells[2:2+cols] if c]
        if cells[1]:
            f = ".".join(([model] if model else []) + [cells[1]])
            ctx.check(f in shown and f not in seen, "csv: each variable once")
            cur = seen[f] = []
            ctx.check(cells[-2] == by[f].unitstr(), "csv: units")
            ctx.check(cells[-1] == (by[f].descr.get("label") or ""), "csv: label")
        cur.extend(nums)
    ctx.check(set(seen) == shown, "csv: all of them")
    return seen


def h_csv(ctx):
    "the same rows, separated by commas"
    n = 1 + ctx.choice("n", 3)
    sol, want = swept_model(ctx, n)
    ascending(ctx, want)
    by = {fullname(key): key for key in want}
    chosen = ctx.choice("show", 4)
    show = [None, ["x"], [by["A.x"], "M"], ["A.v", by["A.z"], "k"]][chosen]
    shown = [set(by), {"A.x", "A.S.x", "B.x"}, {"A.x", "M"}, {"A.v", "A.z", "k"}][chosen]
    valcols = [1, 2, 5][ctx.choice("valcols", 3)]
    with scratch():
        with writing(ctx) as text:
            sol.savecsv(show, "file.csv", valcols)
        with open("file.csv") as f:
            lines = f.read().split("\n")
    seen = csv_rows(ctx, lines, valcols, shown, by)
    for f, nums in seen.items():
        kind, shape, vals = want[by[f]]
        whole = np.stack([np.array(v, dtype=object) for v in vals]) if n > 1 else \
            np.array(vals[0], dtype=object)
        if n > 1 and kind == "const" and len(nums) == int(np.prod(shape)):
            whole = np.array(vals[0], dtype=object)
        arranged(ctx, text, nums, whole, 6e-3, "csv: %s" % f)


def h_csv_mixed(ctx):
    "vectors of several lengths in one file"
    dims = [(), (2,), (3,), [(2, 3), (4,), (1, 3)][ctx.choice("shape", 3)]]
    keys = [X("p", "m")] + [VectorVariable(d, n, "ft", "label of "+n) for d, n in zip(dims[1:], "qrs")]
    by = {var.key.name: var.key for var in keys}
    want, at = {}, 0
    for name, d in zip("pqrs", dims):
        size = int(np.prod(d))
        vals = [ctx.pos("v%d" % (at+i)) for i in range(size)]
        at += size
        for lo, hi in zip(vals, vals[1:]):
            ctx.assume(hi > lo)
        want[name] = arr(ctx, vals).reshape(d) if d else vals[0]
    left = ctx.choice("left", 4)   # 3: r is left out, so that no row is as wide as some
    shown = [set(by), set(by)-{"s"}, set(by)-{"p", "q"}, set(by)-{"r"}][left]
    sol = SolutionArray()
    allv = KeyDict({by[n]: want[n] for n in by})
    sol.append({"cost": 1.0, "cost function": keys[0], "freevariables": allv, "constants": KeyDict(),
                "variables": KeyDict(allv), "sensitivities": {
                    "cost": KeyDict(), "variables": KeyDict(), "constants": KeyDict(), "constraints": {}}})
    sol.to_arrays()
    valcols = [1, 2, 3, 5][ctx.choice("valcols", 4)]
    with scratch():
        with writing(ctx) as text:
            sol.savecsv([by[n] for n in shown] if left else None, "file.csv", valcols)
        with open("file.csv") as f:
            lines = f.read().split("\n")
    seen = csv_rows(ctx, lines, valcols, shown, by)
    for f, nums in seen.items():
        arranged(ctx, text, nums, np.array(want[f], dtype=object), 6e-3, "csv: %s" % f)


def h_summary(ctx):
    "a summary holds the cost, warnings, free variables and sensitivities, but no constants"
    a, c = ctx.real("a"), ctx.pos("c")
    vals = {"A.x": [0.0], "c": [c], "k": [arr(ctx, [a, 0.5])]}
    sol, ks = made(ctx, 1, vals, cons=[(X("x") >= 2*X("y"), [0.5])])
    if ctx.boolean("warn"):
        sol["warnings"] = {"Some kind": [("a warning", None)]}
    chosen = ctx.choice("show", 4)
    show = [(), ["x"], [ks["c"]], ["k", "nothing"]][chosen]
    ntop = ctx.choice("ntop", 3)   # there are two constants
    before = snapshot(sol)
    with writing(ctx) as text:
        given = sol.summary(show, ntopsenss=ntop)
    ctx.check(snapshot(sol) == before, "summary: printing changes nothing")
    found = dict(sections(given))
    ctx.check("Optimal Cost" in found and "Fixed Variables" not in found, "summary: sections")
    ctx.check(("a warning" in given) == bool("warnings" in sol), "summary: warnings")
    free = rows(ctx, found.get("Free Variables", []), "summary")
    names = {".".join(([r.model] if r.model else []) + [r.name]) for r in free}
    ctx.check(names == [{"A.x", "A.v", "B.x"}, {"A.x", "B.x"}, set(), set()][chosen], "summary: free variables")
    ctx.check("Most Sensitive Constraints" in found, "summary: constraints")
    of = [set(vals), {"A.x"}, {"c"}, {"k"}][chosen]
    if ntop == 0 and chosen < 2:    # the sensitivities of constants asked for are always there
        ctx.check("Variable Sensitivities" not in found, "summary: no sensitivities")
    if ntop > 0 or chosen > 1:
        part = {t: ls for t, ls in found.items() if t == "Variable Sensitivities"}
        listed = sensitivity_rows(ctx, text, list(part.items()), "Variable Sensitivities", vals, of, 1e-3, "summary")
        for name in of:
            threshold(ctx, name in listed, vals[name][0], 1e-3, "summary: those above the threshold")
    top = [t for t in found if t.endswith("Most Sensitive Variables")]
    if ntop:
        ctx.check(not top, "summary: all are shown")
    else:
        ctx.check(not top, "summary: the top none")


def h_matrix(ctx):
    "arrays too wide for a line are written one line after another, each along one dimension"
    shape = [(2, 3), (6, 2), (2, 2, 3), (4, 2, 3), (6, 2, 3), (2, 3, 2), (3, 2, 2), (1, 2, 1), (6,), (2, 6)][ctx.choice("shape", 10)]
    elems = [ctx.pos("e%d" % i) for i in range(int(np.prod(shape)))]
    if not ctx.concrete:
        for a, b in zip(elems, elems[1:]):
            ctx.assume(b > a)
    want = arr(ctx, elems).reshape(shape)
    width = [5, 2][ctx.choice("width", 2)]
    m = VectorVariable(shape, "m", "ft", "its label")
    with writing(ctx) as text:
        lines = samod.var_table(KeyDict({m: want}), "Title", maxcolumns=width)
    ctx.check(lines[:2] == ["Title", "-----"] and lines[-1] == "", "matrix: title")
    body = lines[2:-1]
    nums = [[w for w in line.split(" : ")[-1].replace("[ft]", "").replace("its label", "").split() if isnumber(w)]
            for line in body]
    per = len(nums[0])
    ctx.check(all(len(ns) == per for ns in nums) and 0 < per and (per <= width or per == shape[-1]), "matrix: lines")
    ctx.check(per in shape or per == 1, "matrix: lines")
    ctx.check("[ft]" in body[0] and "its label" in body[0], "matrix: units and label on the first line")
    ctx.check(sum(line.replace("[ft]", "").count("]") for line in body) == 1 and "]" in body[-1].replace("[ft]", ""),
              "matrix: bracket")
    arranged(ctx, text, sum(nums, []), want, 6e-3, "matrix: elements", lines=per)


def h_whole(ctx):
    "a text file is the model and the table; the cost, and warnings at each point"
    n = [1, 2, 5][ctx.choice("n", 3)]
    costs = [ctx.pos("cost%d" % t) for t in range(n)]
    x = X("x", "m")
    sol = SolutionArray()
    told = [[], [("first", None)], [("one thing", None), ("another", None)]]
    given = []
    for t in range(n):
        k = ctx.choice("warn%d" % t, 3) if t < 2 else 0
        given.append(told[k])
        kd = KeyDict({x: costs[t]})
        res = {"cost": costs[t], "cost function": x, "freevariables": kd, "constants": KeyDict(), "variables": KeyDict(kd),
               "sensitivities": {"cost": KeyDict(), "variables": KeyDict({x: 1.0}), "constraints": {}, "models": {}}}
        if told[k]:
            res["warnings"] = {"Some kind": list(told[k])}
        sol.append(res)
    sol.to_arrays()
    sol.modelstr = "the model"
    tables = ("cost", "warnings", "freevariables")
    before = snapshot(sol)
    with writing(ctx) as text:
        table = sol.table((), tables)
        with scratch():
            printmodel = ctx.boolean("printmodel")
            sol.savetxt("file.txt", printmodel=printmodel, tables=tables)
            with open("file.txt") as f:
                saved = f.read()
    ctx.check(snapshot(sol) == before, "whole: printing changes nothing")
    ctx.check(saved == ("the model\n" if printmodel else "") + table, "whole: the file is the table")
    lines = table.split("\n")
    line = lines[lines.index("Optimal Cost")+2]
    nums = [w for w in line.split() if isnumber(w)]
    ctx.check(len(nums) == min(n, 4) and ("..." in line) == (n > 4), "whole: costs")
    for num, c in zip(nums, costs):
        same(ctx, text, num, c, 6e-3, "whole: cost")
    found = {}
    for i, line in enumerate(lines):
        if line.startswith("Some kind"):
            point = int(line.split("in sweep ")[1]) if "in sweep" in line else 0
            msgs = lines[i+2:]
            cut = [j for j, l in enumerate(msgs) if not l or l.startswith("~~~")]
            ctx.check(point not in found, "whole: each point's warnings once")
            ctx.check(("in sweep" in line) == (n > 1), "whole: which point warnings are of")
            found[point] = msgs[:cut[0]]
    for t, msgs in enumerate(given):
        ctx.check(sorted(m for m, _ in msgs) == found.pop(t, []), "whole: its warnings")
    ctx.check(not found, "whole: no other warnings")


HARNESSES = [
    Harness("values", h_values, "solutions and sweeps of 1-3 points of ten variables, some of which share names; all or 4 "
            "subsets, text and 3 kinds of latex", max_paths=8000),
    Harness("senss", h_senss, "4 variables of 3 models with any sensitivities, scalar or vector; all or 2 subsets"),
    Harness("top", h_top, "5 variables, 3 of any sensitivity; 4 lengths, 3 sets already shown; 2 thresholds"),
    Harness("constraints", h_constraints, "4 constraints of 2 models, any sensitivities of 3, 1-2 points; 4 lengths, "
            "2 thresholds"),
    Harness("models", h_models, "3 models (one without a name), any sensitivities, 1-2 points"),
    Harness("diff", h_diff, max_paths=10000, bounds="5 variables, any values (or sensitivities) of 2; 2 tolerances; variables on one side only"),
    Harness("csv-mixed", h_csv_mixed, "vectors of 2 and 3, 3 other shapes, 4 widths, 4 subsets"),
    Harness("csv", h_csv, "solutions and sweeps of 1-3 points; all or 3 subsets; 3 widths"),
    Harness("summary", h_summary, "5 variables, any sensitivities of 2; 4 selections, 3 lengths"),
    Harness("matrix", h_matrix, "arrays of any numbers, of 10 shapes of 1-3 dimensions; lines of 2 and 5"),
    Harness("whole", h_whole, "1, 2 and 5 points, any costs; 0-2 warnings at each of the first two points"),
]
