"""Strings with symbolic characters.

A symbolic character is an integer the solver knows (its code point); in a
string it stands as a placeholder (a CJK ideograph: a letter to everything
that does not look at it).  SStr redefines the str methods so that whatever
they decide about such a character is a branch for the solver.
`load(module)` compiles a module's current source with every string literal
made an SStr, so that all of the module's string handling runs this way.
"""
import ast
import builtins
import importlib
import re as _re
import types
from . import poly as P

BASE, TOP = 0x20000, 0x2a000
CHARS = []          # placeholder -> Sym
SPACES = " \t\n\r\x0b\x0c"


def reset():
    CHARS.clear()


def placeholder(sym):
    CHARS.append(sym)
    return chr(BASE+len(CHARS)-1)


def issym(ch):
    return BASE <= ord(ch) < TOP


def code(ch):
    o = ord(ch)
    return CHARS[o-BASE] if BASE <= o < TOP else o


def eqc(a, b):
    "are two characters the same?  (a branch)"
    if a == b:
        return True
    a, b = code(a), code(b)
    if isinstance(a, int) and isinstance(b, int):
        return False
    return bool(a == b)


def inc(ch, chars):
    "is the character one of these?"
    if not issym(ch):
        return ch in chars
    return any(eqc(ch, c) for c in chars)


def between(ch, lo, hi):
    c = code(ch)
    if isinstance(c, int):
        return ord(lo) <= c <= ord(hi)
    return bool(c >= ord(lo)) and bool(c <= ord(hi))


def digit(ch):
    return between(ch, "0", "9")


def letter(ch):
    if not issym(ch):
        return ch.isalpha()
    return between(ch, "a", "z") or between(ch, "A", "Z")


def symbolic(s):
    return any(issym(c) for c in s)


def S(s):
    return s if isinstance(s, SStr) else SStr(s)


class SStr(str):
    "str whose placeholders are symbolic characters"
    __slots__ = ()

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return len(self) == len(o) and all(eqc(a, b) for a, b in zip(str.__iter__(self), str.__iter__(o)))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if symbolic(str.__str__(self)):
            raise P.Unsupported("hash of a symbolic string")
        return str.__hash__(self)

    def __str__(self):
        return self

    def __repr__(self):
        raw = list(str.__iter__(self))
        single, double = any(inc(c, "'") for c in raw), any(inc(c, '"') for c in raw)
        quote = '"' if single and not double else "'"
        out = quote
        for c in raw:
            if inc(c, quote+"\\"):
                out += "\\"+c
            elif issym(c):
                out += c
            else:
                out += repr(c)[1:-1] if c not in "'\"" else c
        return SStr(out+quote)

    def __format__(self, spec):
        if spec:
            raise P.Unsupported("format spec")
        return "".join(str.__iter__(self))

    def __iter__(self):
        return iter([SStr(c) for c in str.__iter__(self)])

    def __getitem__(self, i):
        return SStr(str.__getitem__(self, i))

    def __add__(self, o):
        return SStr(str.__add__(self, o))

    def __radd__(self, o):
        return SStr(o+"".join(str.__iter__(self)))

    def __mul__(self, n):
        return SStr(str.__mul__(self, n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return SStr(str.__mod__(self, args))

    def format(self, *a, **k):
        return SStr(str.format(self, *a, **k))

    def join(self, items):
        return SStr(str.join(self, items))

    def _at(self, sub, i):
        return all(eqc(str.__getitem__(self, i+k), c) for k, c in enumerate(str.__iter__(sub)))

    def find(self, sub, start=0, end=None):
        end = len(self) if end is None else min(end, len(self))
        for i in range(start, end-len(sub)+1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        end = len(self) if end is None else min(end, len(self))
        for i in range(end-len(sub), start-1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _finds(self, sub, limit=-1):
        out, i = [], 0
        while limit < 0 or len(out) < limit:
            i = self.find(sub, i)
            if i < 0:
                break
            out.append(i)
            i += len(sub)
        return out

    def count(self, sub):
        return len(self._finds(sub))

    def replace(self, old, new, limit=-1):
        out, last = "", 0
        for i in self._finds(old, limit):
            out += "".join(str.__iter__(self[last:i]))+new
            last = i+len(old)
        return SStr(out+"".join(str.__iter__(self[last:])))

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            out, last = [], 0
            for i in self._finds(sep, maxsplit):
                out.append(self[last:i])
                last = i+len(sep)
            return out+[self[last:]]
        out, i, n = [], 0, len(self)
        while True:
            while i < n and inc(str.__getitem__(self, i), SPACES):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                return out+[self[i:]]
            j = i
            while j < n and not inc(str.__getitem__(self, j), SPACES):
                j += 1
            out.append(self[i:j])
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        raise P.Unsupported("rsplit")

    def splitlines(self, keepends=False):
        out = self.split("\n")
        if not len(out[-1]):
            out.pop()
        return [o+"\n" for o in out] if keepends else out

    def partition(self, sep):
        i = self.find(sep)
        return (self, S(""), S("")) if i < 0 else (self[:i], S(sep), self[i+len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (S(""), S(""), self) if i < 0 else (self[:i], S(sep), self[i+len(sep):])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self) and inc(str.__getitem__(self, i), chars or SPACES):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        i = len(self)
        while i and inc(str.__getitem__(self, i-1), chars or SPACES):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def startswith(self, pre, start=0):
        pres = pre if isinstance(pre, tuple) else (pre,)
        return any(start+len(p) <= len(self) and self._at(p, start) for p in pres)

    def endswith(self, suf):
        sufs = suf if isinstance(suf, tuple) else (suf,)
        return any(len(s) <= len(self) and self._at(s, len(self)-len(s)) for s in sufs)

    def isspace(self):
        return len(self) > 0 and all(inc(c, SPACES) for c in str.__iter__(self))

    def isdigit(self):
        return len(self) > 0 and all(digit(c) for c in str.__iter__(self))

    def isalpha(self):
        return len(self) > 0 and all(letter(c) for c in str.__iter__(self))

    def isalnum(self):
        return len(self) > 0 and all(letter(c) or digit(c) for c in str.__iter__(self))

    def isidentifier(self):
        return len(self) > 0 and not digit(str.__getitem__(self, 0)) and all(
            letter(c) or inc(c, "_") or digit(c) for c in str.__iter__(self))


def _unsupported(name):
    def method(self, *a, **k):
        if symbolic(str.__getitem__(self, slice(None))) or any(
                isinstance(x, str) and symbolic(x) for x in a):
            raise P.Unsupported("str.%s on symbolic characters" % name)
        out = getattr(str, name)(self, *a, **k)
        return SStr(out) if isinstance(out, str) else out
    return method


for _name in ("lower upper title capitalize swapcase casefold center ljust rjust zfill expandtabs translate encode "
              "isupper islower istitle isnumeric isdecimal isprintable isascii format_map removeprefix "
              "removesuffix").split():
    setattr(SStr, _name, _unsupported(_name))


class ReShim(types.ModuleType):
    "regular expressions, on strings without symbolic characters"
    def __getattr__(self, name):
        real = getattr(_re, name)
        if not callable(real) or isinstance(real, type):
            return real

        def call(*args, **kw):
            for a in args:
                if isinstance(a, str) and symbolic("".join(str.__iter__(a))):
                    if name == "sub" and args[0] == " +" and args[1] == " ":
                        parts = S(args[2])
                        while "  " in parts:
                            parts = parts.replace("  ", " ")
                        return parts
                    raise P.Unsupported("re.%s on symbolic characters" % name)
            args = ["".join(str.__iter__(a)) if isinstance(a, SStr) else a for a in args]
            out = real(*args, **kw)
            return SStr(out) if isinstance(out, str) else out
        return call


class Literals(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, str):
            return ast.copy_location(ast.Call(ast.Name("__S", ast.Load()), [node], []), node)
        return node

    def visit_JoinedStr(self, node):
        new = ast.JoinedStr([ast.FormattedValue(self.visit(v.value), v.conversion, v.format_spec)
                             if isinstance(v, ast.FormattedValue) else v for v in node.values])
        return ast.copy_location(ast.Call(ast.Name("__S", ast.Load()),
                                          [ast.copy_location(new, node)], []), node)

    def body(self, node):
        for field, val in ast.iter_fields(node):
            if field != "body" and isinstance(val, list):
                setattr(node, field, [self.visit(v) if isinstance(v, ast.AST) else v for v in val])
            elif field != "body" and isinstance(val, ast.AST):
                setattr(node, field, self.visit(val))
        keep = []
        for i, st in enumerate(node.body):
            doc = (i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))
            keep.append(st if doc else self.visit(st))
        node.body = keep
        return node
    visit_Module = visit_FunctionDef = visit_ClassDef = body

    def visit_ImportFrom(self, node):
        return node


def load(name):
    "a copy of the module, from its current source, on symbolic strings"
    real = importlib.import_module(name)
    with open(real.__file__) as f:
        src = f.read()
    tree = ast.fix_missing_locations(Literals().visit(ast.parse(src)))
    mod = types.ModuleType(name)
    mod.__package__ = real.__package__
    mod.__file__ = real.__file__
    mod.__dict__["__S"] = S
    exec(compile(tree, real.__file__, "exec"), mod.__dict__)  # pylint: disable=exec-used
    for k, v in list(vars(mod).items()):
        if v is _re:
            setattr(mod, k, ReShim("re"))
    mod.__dict__["str"] = SStrMeta
    mod.__dict__["repr"] = lambda x: x.__repr__() if isinstance(x, SStr) else builtins.repr(x)
    return mod


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)


class SStrMeta(SStr, metaclass=_Meta):
    "stands for the name `str`"
    def __new__(cls, x=""):
        return S(x if isinstance(x, str) else builtins.str(x))


def text(ctx, name, n, lo=32, hi=126):
    "n arbitrary characters of the code point range"
    out = ""
    for i in range(n):
        c = ctx.integer("%s%d" % (name, i), lo, hi)
        out += chr(c) if ctx.concrete else placeholder(c)
    return out if ctx.concrete else SStr(out)
