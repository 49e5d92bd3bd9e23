"""Canonical polynomials over symbolic atoms, and the Sym numeric proxy.

A Sym denotes a real number as  num / prod(den_i ** k_i)  where num and the
den_i are Laurent/Puiseux polynomials over atoms with rational coefficients.
Atoms:
  var    : an input.  kind 'pos' (>0) or 'real' (any sign)
  const  : a prime or e, only used with fractional / symbolic powers (>0)
  base   : stands for a positive polynomial that is raised to a
           non-integer power (>0), defined by  base == poly
  pw     : base_atom ** m  for a monomial m of exponent atoms (>0)
  log    : natural log of an atom
  fun    : an uninterpreted real function applied to symbolic arguments
"""
import math
import opcode
import sys
from fractions import Fraction

RAT = (int, Fraction)


BINARY_OP = opcode.opmap.get("BINARY_OP", -1)


class Unsupported(BaseException):
    "Raised when the engine cannot represent an operation."


class PathAbort(BaseException):
    "Raised to abandon the current path (infeasible)."


def q(x):
    "Normalise a Fraction to an int when integral."
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def snap(x):
    "float -> exact rational it most plausibly denotes."
    if x == int(x) and abs(x) < 1e18:
        return int(x)
    fr = Fraction(x)
    ap = fr.limit_denominator(1000000)
    if ap != 0 and abs(ap - fr) <= abs(fr) * Fraction(1, 10**13):
        return q(ap)
    inv = (1/fr).limit_denominator(1000000)
    if inv != 0 and abs(1/inv - fr) <= abs(fr) * Fraction(1, 10**13):
        return q(1/inv)
    return q(Fraction(repr(float(x))))


class Atom:
    __slots__ = ("idx", "kind", "name", "pos", "data", "isint")

    def __init__(self, idx, kind, name, pos, data=None, isint=False):
        self.idx, self.kind, self.name, self.pos = idx, kind, name, pos
        self.data, self.isint = data, isint

    def __repr__(self):
        return self.name


class AtomTable:
    "All atoms of one symbolic execution path set."
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.bykey = {}

    def new(self, kind, name, pos, data=None, isint=False):
        atom = Atom(len(self.atoms), kind, name, pos, data, isint)
        self.atoms.append(atom)
        return atom

    def var(self, name, pos, isint=False):
        if name not in self.byname:
            self.byname[name] = self.new("var", name, pos, isint=isint)
        if self.byname[name].pos != pos:
            raise AssertionError("input %s both positive and not" % name)
        return self.byname[name]

    def const(self, value):
        key = ("const", value)
        if key not in self.bykey:
            self.bykey[key] = self.new("const", "K(%s)" % value, True, value)
        return self.bykey[key]

    def base(self, poly):
        key = ("base", poly.key())
        if key not in self.bykey:
            self.bykey[key] = self.new("base", "B%d" % len(self.atoms), True, poly)
        return self.bykey[key]

    def pw(self, atom, mono):
        "atom ** mono, mono a non-constant monomial of exponents"
        key = ("pw", atom.idx, mono)
        if key not in self.bykey:
            self.bykey[key] = self.new(
                "pw", "%s^{%s}" % (atom.name, mono_str(mono, self)), True, (atom.idx, mono))
        return self.bykey[key]

    def log(self, atom):
        key = ("log", atom.idx)
        if key not in self.bykey:
            self.bykey[key] = self.new("log", "ln(%s)" % atom.name, False, atom.idx)
        return self.bykey[key]

    def fun(self, name, argkeys, pos, args):
        key = ("fun", name, argkeys)
        if key not in self.bykey:
            self.bykey[key] = self.new("fun", "%s#%d" % (name, len(self.atoms)), pos, (name, args))
        return self.bykey[key]


TABLE = AtomTable()


def set_table(table):
    global TABLE
    TABLE = table


def mono_str(mono, table=None):
    table = table or TABLE
    return "*".join("%s%s" % (table.atoms[i].name, "" if e == 1 else "^%s" % e)
                    for i, e in mono) or "1"


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = dict(m1)
    for i, e in m2:
        s = q(out.get(i, 0) + e)
        if s == 0:
            del out[i]
        else:
            out[i] = s
    return tuple(sorted(out.items()))


def mono_pow(m, k):
    if k == 0:
        return ()
    return tuple((i, q(e*k)) for i, e in m)


class Poly:
    "Immutable: dict monomial -> rational coefficient"
    __slots__ = ("t", "_key")

    def __init__(self, terms):
        self.t = terms
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def add(self, o, sign=1):
        if not o.t:
            return self
        out = dict(self.t)
        for m, c in o.t.items():
            s = q(out.get(m, 0) + sign*c)
            if s == 0:
                del out[m]
            else:
                out[m] = s
        return Poly(out)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: q(c*k) for m, c in self.t.items()})

    def mulmono(self, mono, k=1):
        if not mono:
            return self.scale(k)
        return Poly({mono_mul(m, mono): q(c*k) for m, c in self.t.items()})

    def mul(self, o):
        if len(o.t) == 1:
            (m, c), = o.t.items()
            return self.mulmono(m, c)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return o.mulmono(m, c)
        if len(self.t)*len(o.t) > 400000:
            raise Unsupported("polynomial too large")
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                out[m] = out.get(m, 0) + c1*c2
        return Poly({m: q(c) for m, c in out.items() if c != 0})

    def pow(self, k):
        out = ONE
        for _ in range(k):
            out = out.mul(self)
        return out

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def sign(self):
        "Syntactic sign: 1, -1, 0 or None (unknown)"
        if not self.t:
            return 0
        s = None
        for m, c in self.t.items():
            for i, e in m:
                if not TABLE.atoms[i].pos and e % 2:
                    return None
                if not TABLE.atoms[i].pos:
                    return None
            cs = 1 if c > 0 else -1
            if s is None:
                s = cs
            elif s != cs:
                return None
        return s

    def content(self):
        "(mono, coef) monomial content w.r.t. positive atoms & leading coeff"
        mins = None
        for m in self.t:
            d = dict(m)
            if mins is None:
                mins = dict(d)
            else:
                for i in list(mins):
                    mins[i] = min(mins[i], d.get(i, 0))
                for i, e in d.items():
                    if i not in mins:
                        mins[i] = min(0, e)
        mono = tuple(sorted((i, e) for i, e in mins.items()
                            if e != 0 and TABLE.atoms[i].pos))
        lead = self.t[min(self.t)]
        return mono, lead

    def __str__(self):
        if not self.t:
            return "0"
        return " + ".join(
            ("%s" % c if not m else ("" if c == 1 else "%s*" % c) + mono_str(m))
            for m, c in sorted(self.t.items()))


ZERO = Poly({})
ONE = Poly({(): 1})


def poly_const(c):
    return Poly({(): c}) if c != 0 else ZERO


CTX = None   # the active path context (engine.Path); provides .decide()


def set_ctx(ctx):
    global CTX
    CTX = ctx


PICKLED = []  # symbols pickled by this process, which is also to load them


def _unpickle(i):
    return PICKLED[i]


class SymBool:
    "A symbolic condition: poly REL 0"
    __slots__ = ("rel", "poly")

    def __init__(self, rel, poly):
        self.rel, self.poly = rel, poly

    def __bool__(self):
        return CTX.decide(self)

    def neg(self):
        r = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}[self.rel]
        return SymBool(r, self.poly)

    def __invert__(self):
        return not bool(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)
    __rand__, __ror__ = __and__, __or__

    def __str__(self):
        return "%s %s 0" % (self.poly, self.rel)

    def __repr__(self):
        return "SymBool"

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def any(self, *_a, **_k):
        return bool(self)
    all = any


def prime_factors(n):
    out, p = {}, 2
    while n > 1:
        if p*p > n:
            out[n] = out.get(n, 0) + 1
            break
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            out[n] = out.get(n, 0) + 1
            break
    return out


def _isnumpyarray(x):
    return type(x).__module__ == "numpy" and getattr(x, "shape", ()) != ()


class Sym:
    "Symbolic real number, quacking like a float"
    __slots__ = ("num", "den")
    __array_priority__ = -1000.0

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}     # {poly_key: (Poly, power)}

    @property
    def __class__(self):
        return float

    def mean(self, *_, **__):
        "as a numpy scalar's"
        return self
    max = min = sum = mean

    # -- construction ---------------------------------------------------
    @staticmethod
    def const(v):
        return Sym(poly_const(q(v)))

    @staticmethod
    def coerce(x):
        "Sym, or a python inf/nan float, or None if not a number"
        t = type(x)
        if t is Sym:
            return x
        if t is SymBool:
            return Sym.const(int(bool(x)))
        if t is int or t is bool or t is Fraction:
            return Sym(poly_const(q(x) if t is Fraction else int(x)))
        if t is float or (t.__module__ == "numpy" and getattr(x, "shape", None) == ()):
            if t is not float:
                x = x.item() if hasattr(x, "item") else x
                if type(x) is not float:
                    return Sym.coerce(x)
            if math.isinf(x):
                return x
            if math.isnan(x):
                return x
            return Sym(poly_const(snap(x)))
        if isinstance(x, (float, int)) and t is not Sym:
            return Sym.coerce(float(x) if isinstance(x, float) else int(x))
        return None

    def isconst(self):
        return not self.den and self.num.isconst()

    def constval(self):
        return self.num.constval()

    def key(self):
        return (self.num.key(), tuple(sorted((k, p) for k, (_, p) in self.den.items())))

    # -- arithmetic -------------------------------------------------------
    def _add(self, o, sign):
        if not self.den and not o.den:
            return Sym(self.num.add(o.num, sign))
        if self.den.keys() == o.den.keys() and all(
                self.den[k][1] == o.den[k][1] for k in self.den):
            return _reduce(self.num.add(o.num, sign), self.den)
        den, a, b = {}, self.num, o.num
        for k in set(self.den) | set(o.den):
            pa = self.den[k][1] if k in self.den else 0
            pb = o.den[k][1] if k in o.den else 0
            poly = (self.den.get(k) or o.den.get(k))[0]
            p = max(pa, pb)
            den[k] = (poly, p)
            a = a.mul(poly.pow(p-pa))
            b = b.mul(poly.pow(p-pb))
        return _reduce(a.add(b, sign), den)

    def __add__(self, o):
        if _isnumpyarray(o) or hasattr(o, "hmap"):
            return NotImplemented
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return self._add(o, 1)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return -o
        return self._add(o, -1)

    def __rsub__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return o._add(self, -1)

    def __neg__(self):
        return Sym(self.num.scale(-1), self.den)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if _isnumpyarray(o):
            return NotImplemented
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        if not self.den and not o.den:
            return Sym(self.num.mul(o.num))
        den = dict(self.den)
        for k, (poly, p) in o.den.items():
            den[k] = (poly, p + (den[k][1] if k in den else 0))
        # try cancelling a numerator factor wholesale
        return _reduce_mul(self.num, o.num, den)

    __rmul__ = __mul__

    def inv(self):
        "1/self, self known nonzero"
        if not self.num.t:
            raise ZeroDivisionError("float division by zero")
        num = ONE
        for poly, p in self.den.values():
            num = num.mul(poly.pow(p))
        if len(self.num.t) == 1:
            (m, c), = self.num.t.items()
            if all(TABLE.atoms[i].pos for i, _ in m):
                return Sym(num.mulmono(mono_pow(m, -1), q(Fraction(1)/c)))
        mono, lead = self.num.content()
        poly = self.num.mulmono(mono_pow(mono, -1), q(Fraction(1)/lead))
        num = num.mulmono(mono_pow(mono, -1), q(Fraction(1)/lead))
        if poly.isconst():
            return Sym(num.scale(q(Fraction(1)/poly.constval())))
        return _reduce(num, {poly.key(): (poly, 1)})

    def __truediv__(self, o):
        if _isnumpyarray(o):
            return NotImplemented
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if math.isnan(o):
                return o
            return Sym.const(0)
        if o.num.isconst() and o.num.t and not o.den:
            return Sym(self.num.scale(q(Fraction(1)/o.num.constval())), self.den)
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self*o.inv()

    def __rtruediv__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if self == 0:
                raise ZeroDivisionError("float division by zero")
            return self*o
        return o.__truediv__(self)

    def __floordiv__(self, o):
        raise Unsupported("floordiv")
    __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __rdivmod__ = __floordiv__

    def __pow__(self, k, mod=None):
        if _isnumpyarray(k):
            return NotImplemented
        k = Sym.coerce(k)
        if k is None:
            return NotImplemented
        if type(k) is float:
            raise Unsupported("power inf/nan")
        if k.isconst():
            return self._powconst(k.constval())
        return self._powsym(k)

    def __rpow__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            raise Unsupported("inf ** sym")
        return o.__pow__(self)

    def _powconst(self, k):
        if k == 0:
            return Sym.const(1)
        if isinstance(k, int):
            if abs(k) > 64 and not len(self.num.t) == 1:
                raise Unsupported("large power")
            if k < 0:
                if self == 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                if len(self.num.t) == 1 and not self.den:
                    pass
                else:
                    return self.inv()._powconst(-k)
            if len(self.num.t) == 1 and not self.den:
                (m, c), = self.num.t.items()
                if k > 0 or all(TABLE.atoms[i].pos for i, _ in m):
                    return Sym(Poly({mono_pow(m, k): q(Fraction(c)**k)}))
                return self.inv()._powconst(-k)
            return Sym(self.num.pow(k), {kk: (po, p*k) for kk, (po, p) in self.den.items()})
        # fractional
        if not self > 0:
            if self == 0:
                if k < 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return Sym.const(0)
            raise Unsupported("negative base, fractional power")
        return self._prodpow(lambda atom: Sym(Poly({((atom.idx, k),): 1})),
                             k)

    def _powsym(self, k):
        if self.isconst() and self.constval() == 1:
            return Sym.const(1)
        if not self > 0:
            if self == 0:
                if k > 0:
                    return Sym.const(0)
                if k == 0:
                    return Sym.const(1)
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            raise Unsupported("negative base, symbolic power")
        if k.den:
            kk = Sym.const(1)
            for poly, p in k.den.values():
                b = TABLE.base(poly)
                if Sym(poly) > 0:
                    kk = kk*Sym(Poly({((b.idx, -p),): 1}))
                else:
                    raise Unsupported("symbolic exponent denominator sign")
            k = Sym(reduce_shares((Sym(k.num)*kk).num))
            if k.isconst():
                return self._powconst(k.constval())
        def f(atom):
            return atom_pow(atom, k.num)
        return self._prodpow(f, None)

    def _prodpow(self, f, k):
        "prod of f(atom) over the atoms of self, respecting multiplicity"
        def polypow(poly):
            if len(poly.t) == 1:
                (m, c), = poly.t.items()
                out = Sym.const(1)
                c = Fraction(c)
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    for pr, e in prime_factors(n).items():
                        out = out*ipow(f(TABLE.const(pr)), s*e)
                for i, e in m:
                    out = out*ipow(f(TABLE.atoms[i]), e)
                return fold_consts(out)
            mono, lead = poly.content()
            # normalise content
            rest = poly.mulmono(mono_pow(mono, -1), q(Fraction(1)/abs(lead)))
            out = f(TABLE.base(rest))
            return out*polypow(Poly({mono: abs(lead)}))

        def ipow(s, e):
            if len(s.num.t) == 1 and not s.den:
                (m, c), = s.num.t.items()
                if c == 1:
                    return Sym(Poly({mono_pow(m, e): 1}))
            return s._powconst(e)
        for atom_i in self.num.atoms():
            if not TABLE.atoms[atom_i].pos and len(self.num.t) == 1:
                # positive overall but product of signed atoms
                b = TABLE.base(self.num)
                out = f(b)
                break
        else:
            out = polypow(self.num)
        for poly, p in self.den.values():
            out = out*ipow(polypow(poly), -p)
        return out

    # -- comparison --------------------------------------------------------
    def _cmp(self, o, rel):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if math.isnan(o):
                return rel == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0,
                    "==": False, "!=": True}[rel]
        return cond(rel, self._add(o, -1))

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        if self.isconst():
            return hash(Fraction(self.constval()))
        return 0x5eed

    def __bool__(self):
        return bool(cond("!=", self))

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __float__(self):
        if self.isconst():
            return float(self.constval())
        return math.nan

    def __int__(self):
        if self.isconst():
            return int(self.constval())
        f = sys._getframe(1)
        if f.f_code.co_code[f.f_lasti] == BINARY_OP:
            return 0          # "%i" % sym: text, which no property reads
        raise Unsupported("int(sym)")
    __trunc__ = __int__

    def __round__(self, n=None):
        if self.isconst():
            return round(float(self.constval()), n)
        raise Unsupported("round(sym)")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- numpy object-ufunc hooks --------------------------------------------
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sqrt(self):
        return self._powconst(Fraction(1, 2))

    def conjugate(self):
        return self

    def item(self, *_):
        return self

    def is_integer(self):
        if self.isconst():
            return float(self.constval()).is_integer()
        raise Unsupported("is_integer(sym)")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __str__(self):
        if self.isconst():
            return str(float(self.constval()))
        return "<sym>"

    __repr__ = __str__

    def __format__(self, spec):
        if self.isconst():
            return format(float(self.constval()), spec)
        return "<sym>"

    def __reduce__(self):
        PICKLED.append(self)
        return _unpickle, (len(PICKLED)-1,)

    def expr(self):
        s = str(self.num)
        if self.den:
            s = "(%s)/(%s)" % (s, ")*(".join("%s^%s" % (po, p) for po, p in self.den.values()))
        return s


def _bigger(m1, m2):
    "lexicographic monomial order, later atoms first"
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) - e
    for i in sorted(d, reverse=True):
        if d[i]:
            return d[i] > 0
    return False


def reduce_shares(poly):
    """Canonical form of an exponent modulo  B*B**-1 == 1  for the sums B in its
    denominators: a/(a+b) becomes 1 - b/(a+b)"""
    todo, out = dict(poly.t), {}
    while todo:
        m, c = todo.popitem()
        for i, e in m:
            a = TABLE.atoms[i]
            if a.kind != "base" or e >= 0 or not isinstance(e, int):
                continue
            lead = None
            for m2 in a.data.t:
                if lead is None or _bigger(m2, lead):
                    lead = m2
            d = dict(m)
            if all(j != i and x > 0 and d.get(j, 0) >= x for j, x in lead):
                break
        else:
            s = q(out.get(m, 0) + c)
            if s == 0:
                out.pop(m, None)
            else:
                out[m] = s
            continue
        rest = mono_mul(m, mono_pow(lead, -1))      # with B**e
        k = Fraction(c)/a.data.t[lead]
        new = {mono_mul(rest, ((i, 1),)): k}
        for m2, c2 in a.data.t.items():
            if m2 != lead:
                m3 = mono_mul(rest, m2)
                new[m3] = new.get(m3, 0) - k*c2
        for m2, c2 in new.items():
            s = q(todo.get(m2, 0) + c2)
            if s == 0:
                todo.pop(m2, None)
            else:
                todo[m2] = s
    return Poly(out)


def fold_consts(s):
    "prime atoms raised to integer powers become coefficients"
    if s.den:
        return s
    out = {}
    for m, c in s.num.t.items():
        keep = []
        for i, e in m:
            a = TABLE.atoms[i]
            if a.kind == "const" and a.data != "e":
                fl = math.floor(e)
                c = q(Fraction(c)*Fraction(a.data)**fl)
                e = q(e - fl)
                if e == 0:
                    continue
            keep.append((i, e))
        m = tuple(keep)
        out[m] = q(out.get(m, 0) + c)
    return Sym(Poly({m: c for m, c in out.items() if c != 0}))


def atom_pow(atom, kpoly):
    "atom ** kpoly as a Sym monomial"
    out = {}
    def bump(i, e):
        out[i] = q(out.get(i, 0) + e)
    for m, c in kpoly.t.items():
        if not m:
            bump(atom.idx, c)
        elif atom.kind == "pw":
            bidx, bm = atom.data
            bump(TABLE.pw(TABLE.atoms[bidx], mono_mul(bm, m)).idx, c)
        else:
            # (e^..)^(k*ln x) = x^k
            bump(TABLE.pw(atom, m).idx, c)
    return Sym(Poly({tuple(sorted((i, e) for i, e in out.items() if e != 0)): 1}))


def _reduce(num, den):
    "Try cancelling num against denominators"
    if not num.t:
        return Sym(ZERO)
    if not den:
        return Sym(num)
    den = dict(den)
    changed = True
    while changed and len(num.t) > 1:
        changed = False
        for k, (poly, p) in list(den.items()):
            if len(num.t) == len(poly.t):
                mono, lead = num.content()
                n2 = num.mulmono(mono_pow(mono, -1), q(Fraction(1)/lead))
                if n2.key() == k:
                    num = Poly({mono: lead})
                    if p == 1:
                        del den[k]
                    else:
                        den[k] = (poly, p-1)
                    changed = True
                    break
    return Sym(num, den)


def _reduce_mul(n1, n2, den):
    "Multiply numerators, cancelling each against den first"
    s1 = _reduce(n1, den)
    s2 = _reduce(n2, s1.den)
    return _reduce(s1.num.mul(s2.num), s2.den)


def cond(rel, s):
    "SymBool (or bool) for  s REL 0"
    num = s.num
    for poly, p in s.den.values():
        if p % 2:
            sg = poly.sign()
            if sg == 1 or rel in ("==", "!="):
                continue
            if sg == -1:
                num = num.scale(-1)
            else:
                num = num.mul(poly)
    sg = num.sign()
    if sg is not None:
        return {"<": sg < 0, "<=": sg <= 0, ">": sg > 0, ">=": sg >= 0,
                "==": sg == 0, "!=": sg != 0}[rel]
    if len(num.t) == 2:
        (m1, c1), (m2, c2) = num.t.items()
        atoms = {i for m in (m1, m2) for i, _ in m}
        if (c1*c2 < 0 and all(explike(i) for i in atoms)
                and any(TABLE.atoms[i].kind != "const" for i in atoms)):
            # a e^f - b e^g  has the sign of  (f + log a) - (g + log b)
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            return cond(rel, sym_log(Sym(Poly({m1: c1}))) - sym_log(Sym(Poly({m2: -c2}))))
    return SymBool(rel, num)


def explike(i):
    "whether an atom is an exponential of something symbolic"
    a = TABLE.atoms[i]
    return (a.kind == "fun" and a.data[0] == "exp"
            or a.kind == "pw" and TABLE.atoms[a.data[0]].data == "e"
            or a.kind == "const" and a.data == "e")


def sym_log(s):
    s = Sym.coerce(s)
    if type(s) is float:
        return math.log(s)
    if s.isconst() and s.constval() == 1:
        return Sym.const(0)
    if not s > 0:
        if s == 0:
            raise ValueError("math domain error")
        raise ValueError("math domain error")

    def alog(atom):
        if atom.kind == "pw":
            b, m = atom.data
            return Sym(Poly({m: 1}))*alog(TABLE.atoms[b])
        if atom.kind == "const" and atom.data == "e":
            return Sym.const(1)
        if atom.kind == "fun" and atom.data[0] == "exp":
            return atom.data[1][0]
        return Sym(Poly({((TABLE.log(atom).idx, 1),): 1}))

    def plog(poly):
        if len(poly.t) == 1:
            (m, c), = poly.t.items()
            if all(TABLE.atoms[i].pos for i, _ in m):
                out = Sym.const(0)
                c = Fraction(c)
                for n, sg in ((c.numerator, 1), (c.denominator, -1)):
                    for pr, e in prime_factors(n).items():
                        out = out + alog(TABLE.const(pr))*(sg*e)
                for i, e in m:
                    out = out + alog(TABLE.atoms[i])*e
                return out
        mono, lead = poly.content()
        rest = poly.mulmono(mono_pow(mono, -1), q(Fraction(1)/abs(lead)))
        return alog(TABLE.base(rest)) + plog(Poly({mono: abs(lead)}))
    out = plog(s.num)
    for poly, p in s.den.values():
        out = out - plog(poly)*p
    return out


def sym_exp(s):
    s = Sym.coerce(s)
    if type(s) is float:
        return math.exp(s)
    if s.den:
        f = TABLE.fun("exp", s.key(), True, (s,))
        return Sym(Poly({((f.idx, 1),): 1}))
    e = TABLE.const("e")
    out = Sym.const(1)
    for m, c in s.num.t.items():
        logs = [(i, p) for i, p in m if TABLE.atoms[i].kind == "log"]
        if len(logs) == 1 and logs[0][1] == 1:
            base = TABLE.atoms[TABLE.atoms[logs[0][0]].data]
            rest = tuple((i, p) for i, p in m if i != logs[0][0])
            out = out*atom_pow(base, Poly({rest: c}))
        else:
            out = out*atom_pow(e, Poly({m: c}))
    out = fold_consts(out)
    # base atoms at integer powers expand back to their polynomial
    return expand_bases(out)


def expand_bases(s):
    "base atoms with positive integer powers -> their polynomials"
    out = Sym.const(0)
    hit = False
    for m, c in s.num.t.items():
        fac, rest = ONE, []
        for i, e in m:
            a = TABLE.atoms[i]
            if a.kind == "base" and isinstance(e, int) and e > 0:
                fac = fac.mul(a.data.pow(e))
                hit = True
            else:
                rest.append((i, e))
        out = out + Sym(fac.mulmono(tuple(rest), c))
    return Sym(out.num, s.den) if hit else s


def var(name, pos, isint=False):
    return Sym(Poly({((TABLE.var(name, pos, isint).idx, 1),): 1}))
