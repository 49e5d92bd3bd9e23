"Docstring variable tables declare exactly the variables they list"
import contextlib
import linecache
import gpkit
from symex import symstr
from .lib import *
from .D01 import scratch

NOTE = ("docstring.py is compiled from its current source with every string literal a symbolic-string object, so "
        "each comparison of a symbolic character is a solver branch; the generated declarations are then run by "
        "Python itself, with the symbolic characters inside string literals split into quotes, backslashes and the "
        "rest, which is all that Python's reader distinguishes there")
ASSUMPTIONS = ["symbolic characters range over printable ASCII (32-126) unless stated"]

MODULE = {}


def parser(ctx):
    if ctx.concrete:
        from gpkit.tools import docstring
        return docstring
    symstr.reset()
    if "m" not in MODULE:
        MODULE["m"] = symstr.load("gpkit.tools.docstring")
    return MODULE["m"]


def pieces(ctx, s):
    "code points of a (symbolic) string"
    if ctx.concrete:
        return [ord(c) for c in s]
    return [symstr.code(c) for c in str.__iter__(s)]


def same_text(ctx, got, want, label):
    got, want = pieces(ctx, got), pieces(ctx, want)
    ctx.check(len(got) == len(want), label+" (length)" if len(got) != len(want) else label)
    if len(got) == len(want):
        for a, b in zip(got, want):
            ctx.check(a == b, label)


class Recorder:
    "stands for Variable and VectorVariable: keeps what it was called with"
    made = []

    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw
        self.made.append(self)


class Names(dict):
    "what setup() can see: its own locals, and the numbers written as values"


def readable(ctx, text):
    "text as Python's reader will see it: special characters made explicit"
    if ctx.concrete:
        return text
    out, known = [], {}
    for c in str.__iter__(text):
        if symstr.issym(c):
            if c not in known:
                known[c] = c
                for special in "'\"\\":
                    if symstr.eqc(c, special):
                        known[c] = special
                        break
            c = known[c]
        out.append(c)
    return "".join(out)


class Holder:
    pass


def declare(ctx, doc, names=None, real=True):
    "the variables declared by the text, in order: (attributes, created)"
    mod = parser_of(ctx)
    text = mod.parse_varstring(doc)
    text = readable(ctx, text)
    holder = Holder()
    ns = dict(names or {}, self=holder)
    if real:
        with gpkit.NamedVariables("Table") as (_, made):
            exec(compile(text, "<declarations>", "exec"), ns)   # pylint: disable=exec-used
        made = list(made)
    else:
        keep = gpkit.Variable, gpkit.VectorVariable
        vec = type("VecRecorder", (Recorder,), {})
        Recorder.made = made = []
        gpkit.Variable, gpkit.VectorVariable = Recorder, vec
        try:
            exec(compile(text, "<declarations>", "exec"), ns)   # pylint: disable=exec-used
        finally:
            gpkit.Variable, gpkit.VectorVariable = keep
    return vars(holder), made, ns


def parser_of(ctx):
    if ctx.concrete:
        from gpkit.tools import docstring
        return docstring
    return MODULE["m"]


KINDS = ["Variables", "Constants", "Variables of length 3", "Zoning Variables", "  Constants"]
UNITS = ["ft", "-", "", "m/s^2"]
VALUES = [None, "number"]


def row_text(name, value, units, label, layout):
    a, b, c = [(" ", " ", " "), ("   ", "  ", "   "), ("\t", " ", " ")][layout]
    return name+(a+value if value else "")+b+"["+units+"]"+c+label


def check_row(ctx, got, made, name, value, units, label, kind, tag):
    "one declared variable, as its row says"
    var = got
    key = var.key
    ctx.check(key.name == name, tag+": name")
    ctx.check(kind.strip().startswith("Variables of length") == (hasattr(var, "shape") and var.shape == (3,)),
              tag+": vectors where the table says so, of its length")
    ctx.check(bool(key.constant) == (kind.strip() == "Constants"), tag+": constant where the table says so")
    want = X("reference", units)
    ctx.check(si_ok(key.units, want.key.units), tag+": units")
    same_text(ctx, (key.label or "").rstrip(" ") if ctx.concrete else symstr.S(key.label or "").rstrip(" "),
              label.rstrip(" "), tag+": label")
    if value is None:
        ctx.check("value" not in key.descr, tag+": no value unless one is written")
    elif not hasattr(var, "shape"):
        ctx.check("value" in key.descr, tag+": value")
        if "value" in key.descr:
            ctx.eq(key.descr["value"], value, tag+": value")


def si_ok(a, b):
    return si(a) == si(b) if a and b else bool(a) == bool(b)


def number(ctx, name, names):
    "a number as written in the text, and its value"
    v = ctx.pos(name)
    if ctx.concrete:
        return repr(v), v
    c = ctx.integer(name+"_digit", 48, 57)
    ch = symstr.placeholder(c)
    names[ch] = v
    return ch, v


def one_row(k, indent="    "):
    def fn(ctx):
        parser(ctx)
        kind = KINDS[ctx.choice("table", len(KINDS))]
        units = UNITS[ctx.choice("units", len(UNITS))]
        layout = ctx.choice("layout", 3)
        names = {}
        vtext, v = number(ctx, "v", names) if (
            not kind.startswith("Variables of") and ctx.boolean("value")) else (None, None)
        label = symstr.text(ctx, "l", k)
        row = row_text("x", vtext, units, label, layout)
        doc = "\n".join(["A model", "", indent+kind, indent+"-"*len(kind), indent+row, indent])
        doc = doc if ctx.concrete else symstr.S(doc)
        attrs, made, ns = declare(ctx, doc, names)
        ctx.check(list(attrs) == ["x"], "one attribute")
        ctx.check(ns.get("x") is attrs.get("x"), "also a local name")
        ctx.check(len(made) == (3 if kind.startswith("Variables of") else 1), "one variable")
        if "x" in attrs:
            check_row(ctx, attrs["x"], made, "x", v, units, label.lstrip(" "), kind, "row")
    return fn


def two_rows(ctx):
    "rows that may contain one another"
    parser(ctx)
    kind = ["Variables", "Constants"][ctx.choice("table", 2)]
    second = ["Variables", "Constants", "same table"][ctx.choice("second", 3)]
    a = symstr.text(ctx, "a", 2, 97, 122)
    b = symstr.text(ctx, "b", 1, 97, 122)
    la, lb = symstr.text(ctx, "la", 1), symstr.text(ctx, "lb", 1)
    rows = [row_text(a, None, "m", la, 0), row_text(b, None, "m", lb, 0)]
    if ctx.boolean("swap"):
        rows.reverse()
    if second == "same table":
        body = [kind, "---", rows[0], rows[1]]
    else:
        body = [kind, "---", rows[0], "", second, "---", rows[1]]
    doc = "\n".join(["doc", ""]+body+[""])
    doc = doc if ctx.concrete else symstr.S(doc)
    KEYWORDS = ["as", "if", "in", "is", "or"]
    for kw in KEYWORDS:
        if a == kw:         # no names
            return
    attrs, made, ns = declare(ctx, doc)
    ctx.check(len(attrs) == 2, "two rows, two variables")
    ctx.check(len(made) == 2, "two rows, two variables")
    names = [k for k in attrs]
    for want, lab in ((a, la), (b, lb)):
        found = [k for k in names if len(k) == len(want)]
        ctx.check(len(found) == 1, "a variable for each row")
        for k in found:
            same_text(ctx, k, want, "row's name")
            same_text(ctx, attrs[k].key.name, want, "row's name")
            lbl = attrs[k].key.label or ""
            same_text(ctx, (lbl if ctx.concrete else symstr.S(lbl)).rstrip(" "),
                      lab.strip(" "), "row's label")


def prose(nfree):
    "lines outside tables declare nothing, whatever they say"
    def fn(ctx):
        parser(ctx)
        where = ctx.choice("where", 4)
        words = ["", "Variables", "Constants", "Variables of length 3", "x [m] Variables"][ctx.choice("words", 5)]
        free = symstr.text(ctx, "p", nfree)
        line = free+words if ctx.boolean("front") else words+free
        table = ["Variables", "---------", "t [m] a Variables", "s [ft] last"]
        if where == 0:
            lines = [line, ""]+table
        elif where == 1:
            lines = ["doc", ""]+table+["", line]
        elif where == 2:
            lines = ["doc", ""]+table+["", line, ""]+["Constants", "---", "r [m] b"]
        else:
            lines = ["doc", line, "x [m] not in a table", ""]+table
        doc = "\n".join(lines+[""])
        attrs, made, ns = declare(ctx, doc if ctx.concrete else symstr.S(doc))
        ctx.check(sorted(attrs) == (["r", "s", "t"] if where == 2 else ["s", "t"]), "only the rows of tables")
        ctx.check(len(made) == len(attrs), "each once")
        for k, lab in (("t", "a Variables"), ("s", "last")):
            if k in attrs:
                ctx.check(attrs[k].key.label == lab, "labels that end in a header's words")
                ctx.check(not attrs[k].key.constant, "and are no constants")
    return fn


def headers(ctx):
    "any underlined line ending in the words starts a table"
    parser(ctx)
    kind = ["Variables", "Constants"][ctx.choice("table", 2)]
    free = symstr.text(ctx, "h", 2)
    under = ["-", "---------------", "  ----  "][ctx.choice("underline", 3)]
    after = ["", "  "][ctx.choice("after", 2)]
    doc = "\n".join(["doc", "", free+kind+after, under, "x [m] label", "", "y [m] no row"])
    attrs, made, ns = declare(ctx, doc if ctx.concrete else symstr.S(doc))
    ctx.check(list(attrs) == ["x"], "the table is read")
    if "x" in attrs:
        ctx.check(bool(attrs["x"].key.constant) == (kind == "Constants"), "as what it is")


def freeform(n1, n2, n3):
    "a row of arbitrary characters is declared as written or refused"
    def fn(ctx):
        parser(ctx)
        kind = ["Variables", "Constants", "Variables of length 4"][ctx.choice("table", 3)]
        s1, s2, s3 = (symstr.text(ctx, t, n) for t, n in (("n", n1), ("u", n2), ("l", n3)))
        row = "q"+s1+"["+s2+"]"+s3
        row = row if ctx.concrete else symstr.S(row)
        # the grammar, independently
        pre = row[:row.index("[")]
        rest = row[row.index("[")+1:]
        fields = pre.split()
        if len(fields) > 1:         # a value: see the harness for values
            return
        well = fields[0].isidentifier() if ctx.concrete else symstr.S(fields[0]).isidentifier()
        units = rest[:rest.index("]")]
        label = rest[rest.index("]")+1:].lstrip(" ")
        doc = "\n".join(["doc", "", kind, "---", str(row) if ctx.concrete else row, ""])
        try:
            attrs, made, _ = declare(ctx, doc if ctx.concrete else symstr.S(doc), real=False)
        except Exception as e:  # noqa  pylint: disable=broad-except
            ctx.check(not well, "a well-formed row is accepted")
            return
        ctx.check(well, "a malformed row is refused")
        if not well:
            return
        ctx.check(len(attrs) == 1 and len(made) == 1, "one variable")
        for k, var in attrs.items():
            same_text(ctx, k, fields[0], "name")
            vec = kind.startswith("Variables of")
            args = list(var.args[1:]) if vec else list(var.args)
            if vec:
                ctx.check(var.args[0] == 4, "length")
                ctx.check(type(var).__name__ == "VecRecorder", "a vector")
            ctx.check(bool(var.kw.get("constant")) == (kind == "Constants"), "constant")
            texts = [var.kw["name"]] if "name" in var.kw else []
            texts += [a for a in args if isinstance(a, str)]
            texts += [var.kw[w] for w in ("units", "label") if w in var.kw]
            ctx.check(len(texts) == 3 and len(texts) == len(args)+len([w for w in var.kw if w != "constant"]),
                      "a name, units, and a label")
            for got, want, tag in zip(texts, (fields[0], units, label), ("name", "units", "label")):
                got = got if ctx.concrete else symstr.S(got)
                same_text(ctx, got.rstrip(" "), want.rstrip(" "), tag)
    return fn


def noise(n):
    "a line with no brackets in a table is refused"
    def fn(ctx):
        parser(ctx)
        s = symstr.text(ctx, "s", n)
        for c in pieces(ctx, s):
            ctx.assume(c != 32)
            ctx.assume(c != 45)
        bracket = all(any(bool(c == ord(b)) for c in pieces(ctx, s)) for b in "[]")
        if bracket:
            return
        first = ctx.boolean("first")
        lines = [str(s), "x [m] fine"] if first and ctx.concrete else \
            ([s, "x [m] fine"] if first else ["x [m] fine", s])
        doc = "\n".join(["doc", "", "Variables", "---"]+lines+["", ""])
        try:
            declare(ctx, doc if ctx.concrete else symstr.S(doc), real=False)
            ctx.check(False, "rows without units are refused")
        except Exception:  # noqa  pylint: disable=broad-except
            ctx.check(True, "refused")
    return fn


GOOD = [("3", 3), ("-2.5", -2.5), ("1e3", 1e3), ("1/4", .25), ("2*(1+1)", 4), ("k", 7), ("max(1,2)", 2)]
BAD = ["1,000", "3)", "3#", "3),(4", "(3", "3,", "a=3", "*k", "3;4", "3:", "value=3", "", "3 4"]


def values(ctx):
    "what is written as a value is the value, or refused"
    parser(ctx)
    kind = ["Variables", "Constants"][ctx.choice("table", 2)]
    i = ctx.choice("text", len(GOOD)+len(BAD))
    label = symstr.text(ctx, "l", 1)
    text, v = GOOD[i] if i < len(GOOD) else (BAD[i-len(GOOD)], None)
    doc = "\n".join(["doc", "", kind, "---", "x "+text+" [m] "+label, ""])
    try:
        attrs, made, _ = declare(ctx, doc if ctx.concrete else symstr.S(doc), {"k": 7})
    except Exception:  # noqa  pylint: disable=broad-except
        ctx.check(v is None and text != "", "a value that is one expression is accepted")
        return
    if text == "":
        ctx.check("value" not in attrs["x"].key.descr, "no value")
        return
    ctx.check(v is not None, "a value that is not one expression is refused")
    if v is not None:
        ctx.check(attrs["x"].key.descr.get("value") == v, "the value written")
        ctx.check(bool(attrs["x"].key.constant) == (kind == "Constants"), "constant")


SIGNATURES = ["def setup(self):", "def setup(self, a=(1, 2), *, b=3):", "def setup(self,\n              a=(1, 2)):",
              "def setup(self) -> None:", "def setup(self, a=None):  # (see below):", "def setup(\n        self):"]
BODIES = ["        \"its own docstring\"\n", "\n        # a comment\n", "        t = '''\nflush\n  left'''\n"
          "        assert t == chr(10)+'flush'+chr(10)+'  left'\n", "        if max(1, 2):\n            pass\n", ""]
DECOS = ["    @parse_variables(__doc__, globals())\n", "    @parse_variables(__doc__,\n                     globals())\n",
         "    @parse_variables(__doc__, globals())\n    @same\n"]


def decorated(ctx):
    "the decorated setup runs with the table's variables, as written"
    parser(ctx)
    sig = SIGNATURES[ctx.choice("signature", len(SIGNATURES))]
    body = BODIES[ctx.choice("body", len(BODIES))]
    deco = DECOS[ctx.choice("decorator", len(DECOS))]
    v = ctx.pos("v")
    src = ('from gpkit import Model, parse_variables\ndef same(f):\n    return f\nclass Box(Model):\n    r"""A box\n\n'
           '    Variables\n    ---------\n    x      [m]  side \\rho\n    y VALUE [m] it\'s "wide"\n\n'
           '    Variables of length 2\n    ----------\n    z [m] z\n    """\n'
           + deco + "    " + sig + "\n" + body + "        self.seen = (x, y, z)\n        self.line = "
           "__import__('sys')._getframe().f_lineno\n        return [x >= y, z >= y]\n")
    with scratch() as d:
        path = d+"/box.py"
        with open(path, "w") as f:
            f.write(src)
        linecache.checkcache(path)
        ns = {"__name__": "box_module", "VALUE": v}
        import sys
        import types
        mod = types.ModuleType("box_module")
        mod.__file__ = path
        mod.__dict__.update(ns)
        sys.modules["box_module"] = mod
        try:
            exec(compile(src, path, "exec"), mod.__dict__)      # pylint: disable=exec-used
            m = mod.Box()
        finally:
            del sys.modules["box_module"]
    ctx.check(m.x.key.name == "x" and m.x.key.label == "side \\rho", "first row")
    ctx.check(m.y.key.name == "y" and m.y.key.label == "it's \"wide\"", "second row")
    ctx.check(m.z.shape == (2,), "vector row")
    ctx.check(m.seen[0] is m.x and m.seen[1] is m.y and m.seen[2] is m.z, "setup's names are the attributes")
    ctx.eq(m.substitutions[m.y.key], v, "value")
    ctx.check(m.x.key not in m.substitutions, "no value where none is written")
    ctx.check(len(list(m.flat())) == 3, "the setup's own constraints")
    ctx.check(m.line == src[:src.index("self.line")].count("\n")+1, "tracebacks name the line in the source")


HARNESSES = [
    Harness("row", one_row(2), "5 table headers, 4 units, 3 layouts, with or without any value; labels of 2 characters",
            max_paths=20000),
    Harness("row-long", one_row(4), "as row, labels of 4 characters", tier="thorough", max_paths=60000),
    Harness("two-rows", two_rows, "two rows with any names (2 letters, 1 letter) and 1-character labels, "
            "in one or two tables, both orders", max_paths=20000),
    Harness("prose", prose(1), "1 arbitrary character before or after 5 phrases, 4 places", max_paths=6000),
    Harness("prose-long", prose(3), "3 arbitrary characters", tier="thorough", max_paths=60000),
    Harness("headers", headers, "2 arbitrary characters before the words; 3 underlines"),
    Harness("freeform", freeform(1, 1, 1), "q?[?]? for arbitrary characters, three kinds of table"),
    Harness("freeform-name", freeform(2, 1, 0), "q??[?]", max_paths=20000),
    Harness("freeform-label", freeform(0, 1, 2), "q[?]??", max_paths=20000),
    Harness("freeform-deep", freeform(3, 3, 3), "q???[???]???", tier="thorough", max_paths=100000),
    Harness("noise", noise(3), "table lines of 3 arbitrary characters that have no [ or no ]"),
    Harness("values", values, "7 well-formed and 13 malformed value texts"),
    Harness("decorated", decorated, "6 signatures, 5 bodies, 3 decorator layouts; any value"),
]
