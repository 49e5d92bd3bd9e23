"""Reading printed expressions back.

`printing(ctx)`: within it, formatting a symbolic number writes a number of
three digits of its own, remembered; `read` parses text by the ordinary rules
of arithmetic and evaluates it, taking those numbers for what they stand for.
"""
import contextlib
import math
import re
import numpy as np
from symex.poly import Sym
from gpkit.nomials.core import Nomial

REAL = {k: vars(Nomial)[k] for k in ("str_without", "latex")}
SUPER = {"²": "2", "³": "3", "⁴": "4", "⁵": "5", "⁶": "6", "⁷": "7", "⁸": "8", "⁹": "9", "⁰": "0", "¹": "1",
         "⁻": "-"}


class Text:
    "sentinel numbers for symbolic ones"
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = {}
        self.known = []
        self.magnitude = False      # read as if everything were positive
        self.ints = {}              # what integers written stand for, before being cut off

    def sentinel(self, sym):
        if sym.isconst():
            return float(sym.constval())
        for s, v in self.known:
            if s.num.key() == sym.num.key() and s.den == sym.den:
                return v
        v = 2.01 + 0.01*len(self.table)
        while "%.2g" % v == "%.3g" % v:     # keep three digits
            v += 0.01
            self.table["skip%g" % v] = None
        v = round(v, 2)
        if sym < 0:
            self.table["%.2f" % v] = -sym
            v = -v
        else:
            self.table["%.2f" % v] = sym
        self.known.append((sym, v))
        return v

    def integer(self, sym):
        if sym.isconst():
            return int(sym.constval())
        n = 70001 + len(self.ints)
        self.ints[str(n)] = sym
        return n

    def cut(self, txt):
        "(value of which the integer part was written, whether it's just the integer itself)"
        return (self.ints[txt], False) if txt in self.ints else (float(txt), True)

    def number(self, txt):
        if txt in self.table and not self.magnitude:
            return self.table[txt]
        return float(txt)


@contextlib.contextmanager
def printing(ctx, ints=False):
    "formatting as it is (ints: integer parts too)"
    text = Text(ctx)
    if ctx.concrete:
        yield text
        return
    keep = {k: vars(Sym).get(k) for k in ("__float__", "__mod__", "__str__", "__format__", "__int__")}
    stubs = {k: vars(Nomial)[k] for k in REAL}
    for k, f in REAL.items():
        setattr(Nomial, k, f)
    count = [0]

    def mod(self, o):
        if self.isconst():
            return float(self.constval()) % o
        count[0] += 1
        ctx_v = ctx.fresh("mod%d" % count[0], self, o)
        ctx.assume(ctx_v >= 0)
        ctx.assume(ctx_v < o)
        return ctx_v
    Sym.__float__ = text.sentinel
    Sym.__mod__ = mod
    Sym.__str__ = lambda s: "%.6g" % text.sentinel(s)
    Sym.__format__ = lambda s, spec: format(text.sentinel(s), spec or ".3g")
    Sym.__float__ = lambda s: text.sentinel(s)
    if ints:
        Sym.__int__ = lambda s: text.integer(s)
    try:
        yield text
    finally:
        for k, f in keep.items():
            if f is None:
                delattr(Sym, k)
            else:
                setattr(Sym, k, f)
        for k, f in stubs.items():
            setattr(Nomial, k, f)


class Misread(Exception):
    "text that is not an expression"


TOKEN = re.compile(r"\s*(?:(?P<num>\d+(?:\.\d+)?(?:e[+-]?\d+)?|\.\d+)|(?P<call>\.(?:prod|sum)\(\))"
                   r"|(?P<name>[A-Za-zπ_](?:[A-Za-z0-9_]|\.(?!(?:prod|sum)\(\)))*)|(?P<sup>[²³⁴⁵⁶⁷⁸⁹⁰¹⁻]+)|(?P<op>.))")


def tokens(s):
    out, pos = [], 0
    s = s.rstrip()
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise Misread(s)
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


class Reader:
    "recursive descent: + -, then · * /, then unary minus, then ^ (to the right), then postfixes"
    def __init__(self, s, names, text):
        self.s, self.toks, self.i = s, tokens(s), 0
        self.names, self.text = names, text

    def peek(self, k=0):
        return self.toks[self.i+k] if self.i+k < len(self.toks) else (None, None)

    def take(self, val=None):
        t = self.peek()
        if val is not None and t[1] != val:
            raise Misread("%s: expected %s at %s" % (self.s, val, t))
        self.i += 1
        return t

    def whole(self):
        v = self.sum()
        if self.peek()[0] is not None:
            raise Misread("%s: left over %s" % (self.s, self.toks[self.i:]))
        return v

    def sum(self):
        v = self.product()
        while self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            w = self.product()
            v = v+w if op == "+" or self.text.magnitude else v-w
        return v

    def product(self):
        v = self.unary()
        while self.peek()[1] in ("·", "*", "/"):
            op = self.take()[1]
            w = self.unary()
            v = v/w if op == "/" else v*w
        return v

    def unary(self):
        if self.peek()[1] == "-":
            self.take()
            return self.unary() if self.text.magnitude else -self.unary()
        return self.power()

    def power(self):
        v = self.postfix()
        if self.peek()[1] == "^":
            self.take()
            e = self.exponent()
            v = v**e
        return v

    def exponent(self):
        sgn = 1
        if self.peek()[1] == "-":
            self.take()
            sgn = -1
        if self.peek()[0] == "num":
            e = float(self.take()[1])
            if self.peek()[1] == "^":      # to the right
                self.take()
                e = e**self.exponent()
            elif self.peek()[0] == "sup":
                e = e**float("".join(SUPER[c] for c in self.take()[1]))
        else:
            self.take("(")
            e = self.sum()
            self.take(")")
        e = sgn*e
        return int(e) if e == int(e) else e

    def postfix(self):
        v = self.atom()
        while True:
            k, t = self.peek()
            if k == "sup":
                self.take()
                v = v**int("".join(SUPER[c] for c in t))
            elif k == "call":
                self.take()
                arr = np.asarray(v, dtype=object)
                v = arr.flat[0]
                for w in arr.flat[1:]:
                    v = v*w if t == ".prod()" else v+w
            elif t == "[":
                self.take()
                v = v[self.index()]
            else:
                return v

    def index(self):
        parts = [[]]
        while self.peek()[1] != "]":
            k, t = self.take()
            if t == ",":
                parts.append([])
            else:
                parts[-1].append(t)
        self.take("]")
        out = []
        for p in parts:
            txt = "".join(p)
            if ":" in txt:
                out.append(slice(*[int(q) if q else None for q in txt.split(":")]))
            else:
                out.append(int(txt))
        return tuple(out) if len(out) > 1 else out[0]

    def atom(self):
        k, t = self.take()
        if k == "num":
            v = self.text.number(t)
            if self.peek() == ("name", "π"):
                self.take()
                v = v*math.pi
            return v
        if k == "name":
            if t == "π":
                return math.pi
            if t not in self.names:
                raise Misread("%s: no variable called %s" % (self.s, t))
            return self.names[t]
        if t == "(":
            v = self.sum()
            self.take(")")
            return v
        if t == "[":
            vals = [self.sum()]
            while self.peek()[1] != "]":
                if self.peek()[1] == ",":
                    self.take()
                vals.append(self.sum())
            self.take("]")
            return np.array(vals, dtype=object)
        raise Misread("%s: %s unexpected" % (self.s, t))


def read(s, names, text):
    return Reader(s, names, text).whole()


LTOKEN = re.compile(r"\s*(?:(?P<num>\d+(?:\.\d+)?)|(?P<cmd>\\[a-z]+)|(?P<name>[A-Za-z]\w*)|(?P<op>.))")


class LatexReader:
    "what nomials print as latex: sums of products, \\frac{}{}, ^{}, \\times 10^{}"
    def __init__(self, s, names, text):
        self.s, self.names, self.text = s, names, text
        self.toks = [(m.lastgroup, m.group(m.lastgroup)) for m in LTOKEN.finditer(s.rstrip())]
        self.i = 0

    peek, take = Reader.peek, Reader.take

    def whole(self):
        v = self.sum()
        if self.peek()[0] is not None:
            raise Misread("%s: left over %s" % (self.s, self.toks[self.i:]))
        return v

    def sum(self):
        v = self.term()
        while self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            w = self.term()
            v = v+w if op == "+" or self.text.magnitude else v-w
        return v

    def term(self):
        sign = 1
        while self.peek()[1] == "-":
            self.take()
            sign = sign if self.text.magnitude else -sign
        v = self.factor()
        while self.peek()[0] is not None and self.peek()[1] not in ("+", "-", "}"):
            if self.peek()[1] == "\\times":
                self.take()
            v = v*self.factor()
        return sign*v

    def group(self):
        self.take("{")
        v = self.sum()
        self.take("}")
        return v

    def exponent(self):
        self.take("{")
        txt = ""
        while self.peek()[1] != "}":
            txt += self.take()[1]
        self.take("}")
        e = float(txt)
        return int(e) if e == int(e) else e

    def factor(self):
        k, t = self.take()
        if k == "num":
            v = self.text.number(t)
        elif t == "\\frac":
            a = self.group()
            return a/self.group()
        elif t == "\\vec":
            self.take("{")
            v = self.names[self.take()[1]]
            self.take("}")
        elif k == "name":
            if t not in self.names:
                raise Misread("%s: no variable called %s" % (self.s, t))
            v = self.names[t]
        elif t == "{":
            txt = ""
            depth = 1
            while depth:
                tok = self.take()[1]
                depth += {"{": 1, "}": -1}.get(tok, 0)
                txt += tok if depth else ""
            self.take("_")
            self.take("{")
            sub = ""
            while self.peek()[1] != "}":
                sub += self.take()[1]
            self.take("}")
            name = txt+"_"+sub
            if name not in self.names:
                raise Misread("%s: no variable called %s" % (self.s, name))
            v = self.names[name]
        else:
            raise Misread("%s: %s unexpected" % (self.s, t))
        if self.peek()[1] == "^":
            self.take()
            v = v**self.exponent()
        return v


def read_latex(s, names, text):
    return LatexReader(s, names, text).whole()
