"""Environment stand-ins installed in gpkit's module globals, in symbolic mode
only: numpy functions that would force a C double, builtins float/hash, math,
and scipy's csr_matrix."""
import builtins
import math
import sys
import types
import numpy as np
from . import poly as P
from .poly import Sym, SymBool, Unsupported


def has_sym(x):
    t = type(x)
    if t is Sym or t is SymBool:
        return True
    if t is np.ndarray:
        return x.dtype == object and any(has_sym(v) for v in x.flat)
    if t in (list, tuple):
        return any(has_sym(v) for v in x)
    if hasattr(x, "magnitude"):
        return has_sym(x.magnitude)
    return False


# ------------------------------------------------------------------ hash
class SHash(int):
    """An abstract hash: structure only, numbers ignored, with the list of
    (key, number) pairs toggled into it so consistency can be asserted."""
    toggles = ()

    def __new__(cls, value, toggles=()):
        self = int.__new__(cls, value)
        self.toggles = tuple(toggles)
        return self

    def __xor__(self, o):
        return SHash(int(self) ^ int(o), self.toggles + getattr(o, "toggles", ()))
    __rxor__ = __xor__

    def __reduce__(self):
        return (int, (int(self),))


def isnum(x):
    return type(x) is Sym or (isinstance(x, (int, float, np.number))
                              and not isinstance(x, bool))


def sym_hash(x):
    "builtins.hash stand-in"
    if isinstance(x, tuple) and len(x) == 2 and isnum(x[1]) and not isnum(x[0]):
        # constant per key: only the key matters, toggles remember the value
        return SHash(0, ((x[0], x[1]),))
    if type(x) is Sym:
        return hash(x)
    if isinstance(x, tuple) and any(has_sym(v) for v in x):
        return hash(tuple("<sym>" if has_sym(v) else v for v in x))
    return builtins.hash(x)


# ------------------------------------------------------------------ float
class _FloatMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, builtins.float)

    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if type(x) is SymBool:
            return builtins.float(bool(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.flatten()[0])
        if hasattr(x, "magnitude") and has_sym(x.magnitude):
            return cls(x.to_root_units().magnitude if not x.dimensionless
                       else x.to("dimensionless").magnitude)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return builtins.hash(builtins.float)


class SFloat(metaclass=_FloatMeta):
    "callable float"


def sym_int(x=0, *a):
    if type(x) is Sym:
        return int(x)
    return builtins.int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, builtins.int)

    def __call__(cls, *a):
        return sym_int(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return builtins.hash(builtins.int)


# ------------------------------------------------------------------ numpy
FLOATS = (None, builtins.float, np.float64, np.float32, np.longdouble,
          "f", "float", "d", "float64", "float32", np.dtype("float64"), np.dtype("float32"))


def _isfloatdt(dt):
    if dt is SFloat:
        return True
    try:
        return any(dt is f or dt == f for f in FLOATS)
    except TypeError:
        return False


F32 = ("f", "float32", np.float32)


def _isf32(dt):
    return dt is not None and dt is not SFloat and not isinstance(dt, Shim) and (
        dt is np.float32 or (isinstance(dt, str) and dt in ("f", "float32", "f4"))
        or (isinstance(dt, np.dtype) and dt == np.float32))


def fround(x):
    "rounding to single precision: an unknown real function of the number"
    s = Sym.coerce(x)
    if type(s) is not Sym or s.isconst() and s.constval() == int(s.constval()):
        return x
    f = P.TABLE.fun("float32", (s.key(),), False, [s])
    return Sym(P.Poly({((f.idx, 1),): 1}))


def fround_all(arr):
    for i, v in np.ndenumerate(arr):
        arr[i] = fround(v)
    return arr


class Shim(types.ModuleType):
    "module-like proxy"
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def np_array(obj, dtype=None, *a, **k):
    if _isfloatdt(dtype):
        try:
            plain = np.array(obj, dtype=object if has_deep(obj) else (
                builtins.float if dtype is SFloat else dtype), *a, **k)
        except ValueError:
            plain = np.array(obj, dtype=object)
        if dtype is not None and plain.dtype != object and plain.dtype.kind in "fiu":
            plain = plain.astype(object)
        if _isf32(dtype):
            plain = fround_all(plain.copy())
        return plain
    if has_deep(obj):
        return np.array(obj, dtype=object, *a, **k)
    return np.array(obj, dtype, *a, **k)


def has_deep(x):
    if type(x) in (Sym, SymBool):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_deep(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_deep(v) for v in x)
    return False


def _mk(name):
    real = getattr(np, name)

    def f(shape, *a, **k):
        if name.startswith("full"):
            fill, a = (a[0], a[1:]) if a else (k.pop("fill_value"), a)
            dt = a[0] if a else k.pop("dtype", None)
            if _isf32(dt):
                return fround_all(real(shape, fill, dtype=object))
            if _isfloatdt(dt):
                dt = object if dt is not None or has_sym(fill) or isinstance(
                    fill, builtins.float) else None
            return real(shape, fill, dtype=dt)
        dt = a[0] if a else k.pop("dtype", None)
        if _isfloatdt(dt):
            out = np.empty(shape if not name.endswith("_like") else np.shape(shape), dtype=object)
            out[...] = {"z": 0.0, "o": 1.0, "e": 0.0}[name[0]]
            return out
        return real(shape, dtype=dt)
    return f


def _elementwise(name, symf, boolean=False):
    real = getattr(np, name)

    def f(x, *a, **k):
        if type(x) in (Sym, SymBool):
            return symf(x)
        if isinstance(x, (list, tuple)) and has_deep(x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i, v in np.ndenumerate(x):
                if name in ("log", "exp") and isinstance(v, (int, builtins.float)) \
                        and (name == "exp" or v > 0) and not math.isinf(v):
                    v = Sym.coerce(v)   # exactly, beside symbolic entries
                out[i] = symf(v) if type(v) is Sym else (
                    f(v) if isinstance(v, np.ndarray) else real(v))
            if boolean:
                out = out.astype(bool)
            return out if x.shape else out[()]
        return real(x, *a, **k)
    f.__name__ = name
    return f


def s_sign(v):
    if v > 0:
        return 1.0
    if v < 0:
        return -1.0
    return 0.0


def np_sum(x, *a, **k):
    if type(x) is Sym:
        return x
    if has_deep(x):
        return np.sum(np.array(x, dtype=object), *a, **k)
    return np.sum(x, *a, **k)


def np_prod(x, *a, **k):
    if type(x) is Sym:
        return x
    if has_deep(x):
        return np.prod(np.array(x, dtype=object), *a, **k)
    return np.prod(x, *a, **k)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_deep(a) or has_deep(b):
        f = np.frompyfunc(lambda x, y: bool(abs(x-y) <= atol + rtol*abs(y)), 2, 1)
        return f(a, b)
    return np.isclose(a, b, rtol, atol, equal_nan)


def np_allclose(a, b, *r, **k):
    if has_deep(a) or has_deep(b):
        return bool(np.all(np_isclose(a, b, *r, **k)))
    return np.allclose(a, b, *r, **k)


def np_linspace(a, b, num=50, **k):
    if has_sym(a) or has_sym(b):
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = a + (b-a)*P.Fraction(i, max(num-1, 1))
        return out
    return np.linspace(a, b, num, **k)


def np_interp(*a, **k):
    if any(has_deep(x) for x in a):
        raise Unsupported("np.interp")
    return np.interp(*a, **k)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and (dtype is None or x.dtype == object):
        return x
    return np_array(x, dtype)


def _pairwise(name):
    real = getattr(np, name)
    better = {"maximum": lambda x, y: x if x >= y else y,
              "minimum": lambda x, y: x if x <= y else y,
              "power": lambda x, y: x**y}[name]

    def f(a, b, *r, **k):
        if has_deep(a) or has_deep(b):
            return np.frompyfunc(better, 2, 1)(a, b)
        return real(a, b, *r, **k)
    return f


def np_extreme(name):
    real = getattr(np, name)
    pyf = builtins.max if name in ("max", "amax") else builtins.min

    def f(x, *a, **k):
        if has_deep(x):
            if a or k:
                raise Unsupported("np.%s with axis" % name)
            return pyf(list(np.array(x, dtype=object).flat))
        return real(x, *a, **k)
    return f


def np_nan_like(name):
    real = getattr(np, name)
    base = {"nansum": np.sum, "nanmean": np.mean, "nanprod": np.prod, "nanmax": builtins.max,
            "nanmin": builtins.min}[name]

    def f(x, *a, **k):
        if has_deep(x):
            x = np.array(x, dtype=object)
            if a or k:
                if not all(type(v) is Sym for v in x.flat):
                    raise Unsupported("np.%s along an axis" % name)
                return base(x, *a, **k)
            vals = [v for v in x.flat if type(v) is Sym or v == v]
            if not vals:
                return builtins.float("nan")
            return base(vals) if base in (builtins.max, builtins.min) else base(np.array(vals, dtype=object))
        return real(x, *a, **k)
    return f


def np_where(cond, *ab):
    if len(ab) == 2 and any(has_deep(v) for v in ab):
        return np.where(np.array(cond, dtype=bool), *[np.array(v, dtype=object) for v in ab])
    return np.where(cond, *ab)


def np_argextreme(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if has_deep(x):
            if a or k:
                raise Unsupported("np.%s with axis" % name)
            vals, best = list(np.array(x, dtype=object).flat), 0
            for i, v in enumerate(vals):
                if (v > vals[best] if name == "argmax" else v < vals[best]):
                    best = i
            return best
        return real(x, *a, **k)
    return f


def make_np():
    over = {n: _mk(n) for n in ("zeros", "ones", "empty", "full", "zeros_like",
                                "ones_like", "full_like", "empty_like")}
    over.update({
        "array": np_array, "asarray": np_asarray,
        "isnan": _elementwise("isnan", lambda v: np.False_, True),
        "isinf": _elementwise("isinf", lambda v: np.False_, True),
        "isfinite": _elementwise("isfinite", lambda v: np.True_, True),
        "sign": _elementwise("sign", s_sign),
        "exp": _elementwise("exp", P.sym_exp),
        "log": _elementwise("log", P.sym_log),
        "log10": _elementwise("log10", lambda v: P.sym_log(v)/math.log(10)),
        "log2": _elementwise("log2", lambda v: P.sym_log(v)/math.log(2)),
        "log1p": _elementwise("log1p", lambda v: P.sym_log(v+1)),
        "expm1": _elementwise("expm1", lambda v: P.sym_exp(v)-1),
        "square": _elementwise("square", lambda v: v*v),
        "sqrt": _elementwise("sqrt", lambda v: v.sqrt()),
        "abs": _elementwise("abs", abs), "absolute": _elementwise("abs", abs),
        "sum": np_sum, "prod": np_prod, "isclose": np_isclose, "allclose": np_allclose,
        "linspace": np_linspace, "interp": np_interp,
        "maximum": _pairwise("maximum"), "minimum": _pairwise("minimum"),
        "power": _pairwise("power"),
        "max": np_extreme("max"), "min": np_extreme("min"),
        "amax": np_extreme("amax"), "amin": np_extreme("amin"),
        "nansum": np_nan_like("nansum"), "nanmean": np_nan_like("nanmean"),
        "nanprod": np_nan_like("nanprod"), "nanmax": np_nan_like("nanmax"), "nanmin": np_nan_like("nanmin"),
        "where": np_where, "argmax": np_argextreme("argmax"), "argmin": np_argextreme("argmin"),
        "float64": SFloat,
        "nditer": lambda op, flags=(), *a, **k: np.nditer(op, list(flags)+["refs_ok"], *a, **k),
    })
    return Shim(np, over)


def make_math():
    def w(name, f):
        real = getattr(math, name)
        return lambda x, *a: f(x, *a) if type(x) is Sym or any(
            type(v) is Sym for v in a) else real(x, *a)
    return Shim(math, {
        "exp": w("exp", P.sym_exp), "log": w("log", _log), "sqrt": w("sqrt", lambda x: x.sqrt()),
        "log10": w("log10", lambda x: P.sym_log(x)/math.log(10)),
        "log2": w("log2", lambda x: P.sym_log(x)/math.log(2)),
        "log1p": w("log1p", lambda x: P.sym_log(x+1)),
        "expm1": w("expm1", lambda x: P.sym_exp(x)-1),
        "isnan": w("isnan", lambda x: False), "isinf": w("isinf", lambda x: False),
        "isfinite": w("isfinite", lambda x: True), "fabs": w("fabs", abs),
        "pow": w("pow", lambda x, y: Sym.coerce(x)**y),
        "copysign": w("copysign", lambda x, y: abs(x) if y >= 0 else -abs(x)),
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
            abs(a-b) <= abs_tol or abs(a-b) <= rel_tol*abs(a) or abs(a-b) <= rel_tol*abs(b))
        if has_sym(a) or has_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
    })


def _log(x, base=None):
    out = P.sym_log(x)
    return out if base is None else out/P.sym_log(base)


# ------------------------------------------------------------------ sparse
class SymCSR:
    """stand-in for scipy.sparse matrices: {(row, col): entry}, explicit zeros
    kept, duplicates summed, entries in row-major order (as scipy's csr)"""
    def __init__(self, arg, shape=None, **_):
        self.e = {}
        if isinstance(arg, dict):
            self.e = arg
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            row, col = [int(i) for i in row], [int(j) for j in col]
            if shape is None:
                shape = (max(row)+1, max(col)+1)  # ValueError when empty, as scipy
            if not len(row) == len(col) == len(data):
                raise ValueError("row, column, and data array must all be the same length")
            for d, i, j in zip(data, row, col):
                self.e[i, j] = self.e[i, j] + d if (i, j) in self.e else d
        elif isinstance(arg, SymCSR):
            self.e, shape = dict(arg.e), arg.shape
        else:
            arr = np.array(arg, dtype=object)
            self.e = {ij: v for ij, v in np.ndenumerate(arr) if type(v) is Sym or v != 0}
            shape = arr.shape
        self.shape = tuple(int(n) for n in shape)

    @property
    def a(self):
        out = np.empty(self.shape, dtype=object)
        out[...] = 0
        for ij, v in self.e.items():
            out[ij] = v
        return out

    @property
    def T(self):
        return SymCSR({(j, i): v for (i, j), v in self.e.items()}, self.shape[::-1])
    transpose = lambda self: self.T

    def dot(self, o):
        if isinstance(o, SymCSR):
            return SymCSR(self.a.dot(o.a))
        if np.shape(o)[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        return self.a.dot(np.array(o, dtype=object))

    __matmul__ = dot

    def __mul__(self, o):
        if hasattr(o, "shape"):
            return self.dot(o)
        return SymCSR({ij: v*o for ij, v in self.e.items()}, self.shape)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        rows, cols = key
        if hasattr(rows, "__len__"):
            rows = np.array(rows)
            if rows.dtype == bool:
                if len(rows) != self.shape[0]:
                    raise IndexError("boolean index did not match")
                rows = np.nonzero(rows)[0]
            if any(r >= self.shape[0] for r in rows):
                raise IndexError("row index out of bounds")
            if not (isinstance(cols, slice) and cols == slice(None)):
                raise Unsupported("sparse fancy columns")
            out = {}
            for n, r in enumerate(rows):
                for (i, j), v in self.e.items():
                    if i == int(r) % self.shape[0]:
                        out[n, j] = v
            return SymCSR(out, (len(rows), self.shape[1]))
        out = self.a[rows, cols]
        if isinstance(out, np.ndarray):
            return SymCSR(out.reshape((-1, out.shape[-1]) if out.ndim > 1 else (1, -1)))
        return out

    def toarray(self):
        return self.a

    def todense(self):
        return self.a
    A = property(toarray)

    def _nz(self):
        return [(i, j, self.e[i, j]) for i, j in sorted(self.e)]

    @property
    def row(self):
        return np.array([i for i, _, _ in self._nz()], dtype=int)

    @property
    def col(self):
        return np.array([j for _, j, _ in self._nz()], dtype=int)

    @property
    def data(self):
        out = np.empty(len(self.e), dtype=object)
        out[:] = [v for _, _, v in self._nz()]
        return out

    @property
    def nnz(self):
        return len(self.e)

    def tocoo(self, *a):
        return self
    tocsr = tocsc = todia = todok = copy = tocoo

    def sum(self, *a, **k):
        return self.a.sum(*a, **k)


NP = make_np()
MATH = make_math()
SINT = None


def install():
    "patch every gpkit module's globals (symbolic worker process only)"
    import scipy.sparse
    real_csr = scipy.sparse.csr_matrix
    for name, mod in list(sys.modules.items()):
        if not name.startswith("gpkit") or mod is None or name.startswith("gpkit.tests"):
            continue
        patch_module(mod, real_csr)
    import ad
    ad.math = MATH
    # small_classes imports csr_matrix inside the function
    scipy.sparse.csr_matrix = SymCSR
    # HashVector.__mul__ has a bare except: Unsupported must not vanish in it
    orig = Unsupported.__init__

    def noted(self, *a):
        orig(self, *a)
        if P.CTX is not None:
            P.CTX.poison = str(a[0]) if a else "unsupported"
    Unsupported.__init__ = noted


def patch_module(mod, real_csr=None):
    d = vars(mod)
    for k, v in list(d.items()):
        if v is np:
            d[k] = NP
        elif v is math:
            d[k] = MATH
        elif real_csr is not None and v is real_csr:
            d[k] = SymCSR
        elif v is np.log and k != "np":
            d[k] = NP.log
        elif v is math.log or v is math.exp or v is math.sqrt or v is math.isnan:
            d[k] = getattr(MATH, v.__name__)
        elif isinstance(v, type(np.sum)) and getattr(np, getattr(v, "__name__", ""), None) is v \
                and v.__name__ in NP.__dict__:
            d[k] = NP.__dict__[v.__name__]
    d["float"] = SFloat
    d["hash"] = sym_hash
