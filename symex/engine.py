"""Path exploration and solver interface.

A harness  fn(ctx)  is executed again and again; every branch on a symbolic
condition asks z3 which outcomes are feasible under the path condition, and
the unexplored ones are queued (depth first, decision-prefix re-execution).
Every ctx.check() is a z3 query for the negated assertion.
"""
import math
import random
import time
import traceback
from fractions import Fraction
import z3
from . import poly as P
from .poly import (Poly, Sym, SymBool, Unsupported, PathAbort, mono_mul, mono_pow, q)


class CheckFailed(Exception):
    "concrete-mode check failure"


class Assumed(BaseException):
    "an assumption does not hold on this concrete input"


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.paths = self.decisions = 0
        self.checks = 0


# ---------------------------------------------------------------- normalise
def normalise(poly, subst):
    """Rewrites poly (a numerator compared with 0) using path equalities,
    expands base atoms; may multiply by positive factors."""
    table = P.TABLE
    for _ in range(20):
        changed = False
        if subst:
            used = closure_atoms(poly)
            if used & subst.keys():
                poly = substitute(poly, subst)
                changed = True
        bases = [i for i in poly.atoms() if table.atoms[i].kind in ("base", "const")]
        for b in bases:
            es = [dict(m).get(b, 0) for m in poly.t]
            lo = min(es)
            k = -math.floor(lo) if lo < 0 else 0
            if k or any(e >= 1 for e in es):
                bp = table.atoms[b].data
                if bp == "e":
                    if k:
                        poly = poly.mulmono(((b, k),))
                    continue
                if not isinstance(bp, Poly):
                    bp = P.poly_const(bp)
                if k:
                    poly = poly.mulmono(((b, k),))
                out = P.ZERO
                for m, c in poly.t.items():
                    d = dict(m)
                    e = d.get(b, 0)
                    fl = math.floor(e)
                    fr = q(e - fl)
                    d.pop(b, None)
                    if fr:
                        d[b] = fr
                    out = out.add(bp.pow(fl).mulmono(tuple(sorted(d.items())), c))
                poly = out
                changed = True
        if not changed:
            break
    return poly


def closure_atoms(poly):
    "atoms used by poly including inside pw/log/base"
    seen, todo = set(), list(poly.atoms())
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = P.TABLE.atoms[i]
        if a.kind == "pw":
            todo.append(a.data[0])
            todo.extend(j for j, _ in a.data[1])
        elif a.kind == "log":
            todo.append(a.data)
        elif a.kind == "base":
            todo.extend(a.data.atoms())
    return seen


def substitute(poly, subst):
    "poly with atoms replaced per subst {idx: Sym}; result numerator"
    table = P.TABLE
    memo = {}

    def atom_sym(i):
        if i in memo:
            return memo[i]
        a = table.atoms[i]
        if i in subst:
            out = subst[i]
        elif a.kind == "pw":
            b = atom_sym(a.data[0])
            ex = Sym(P.ONE)
            for j, e in a.data[1]:
                ex = ex*atom_sym(j)._powconst(e)
            if b.num.t == {((a.data[0], 1),): 1} and ex.num.t == {a.data[1]: 1} and not ex.den:
                out = Sym(Poly({((i, 1),): 1}))
            else:
                out = b**ex
        elif a.kind == "log":
            b = atom_sym(a.data)
            out = (Sym(Poly({((i, 1),): 1})) if b.num.t == {((a.data, 1),): 1}
                   else P.sym_log(b))
        elif a.kind == "base":
            n = substitute_s(a.data)
            if n.num.key() == a.data.key() and not n.den:
                out = Sym(Poly({((i, 1),): 1}))
            else:
                out = n
        else:
            out = Sym(Poly({((i, 1),): 1}))
        memo[i] = out
        return out

    def substitute_s(p):
        tot = Sym(P.ZERO)
        for m, c in p.t.items():
            term = Sym(P.poly_const(c))
            for i, e in m:
                term = term*(atom_sym(i)**e)
            tot = tot + term
        return tot
    res = substitute_s(poly)
    num = res.num
    for dp, p in res.den.values():
        if p % 2:
            sg = dp.sign()
            if sg == -1:
                num = num.scale(-1)
            elif sg is None:
                num = num.mul(dp)
    return num


# ---------------------------------------------------------------- z3 encode
class Encoder:
    "polys -> z3 terms for one query"
    def __init__(self):
        self.vars = {}
        self.side = []
        self.roots = {}

    def gather(self, polys):
        dens = {}
        extra, seen = [], set()
        todo = list(polys)
        while todo:
            p = todo.pop()
            for m in p.t:
                for i, e in m:
                    if isinstance(e, Fraction):
                        dens[i] = dens.get(i, 1)*e.denominator//math.gcd(
                            dens.get(i, 1), e.denominator)
                    a = P.TABLE.atoms[i]
                    if a.kind == "base" and i not in seen:
                        seen.add(i)
                        d = a.data.add(Poly({((i, 1),): 1}), -1)
                        extra.append(d)
                        todo.append(d)
        self.roots = dens
        for d in extra:
            self.side.append(self.poly(d) == 0)

    def atom(self, i):
        if i not in self.vars:
            a = P.TABLE.atoms[i]
            v = z3.Int(a.name) if a.isint else z3.Real(a.name + "_%d" % i)
            self.vars[i] = v
            if a.pos:
                self.side.append(v > 0)
            if a.kind == "const":
                root = v**self.roots[i] if self.roots.get(i, 1) > 1 else v
                if a.data == "e":
                    self.side.append(root > z3.RealVal("2.718281"))
                    self.side.append(root < z3.RealVal("2.718282"))
                else:
                    self.side.append(root == a.data)
        return self.vars[i]

    def poly(self, p):
        "z3 term for p times a positive monomial (clears negative powers)"
        clear = {}
        for m in p.t:
            for i, e in m:
                if e < 0:
                    clear[i] = min(clear.get(i, 0), e)
        if clear:
            p = p.mulmono(tuple(sorted((i, -e) for i, e in clear.items())))
        terms = []
        for m, c in sorted(p.t.items()):
            c = Fraction(c)
            t = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            fs = [t] if c != 1 or not m else []
            for i, e in m:
                k = e*self.roots.get(i, 1)
                assert k == int(k) and k > 0, (p, k)
                v = self.atom(i)
                fs.extend([v]*int(k) if k <= 3 else [v**int(k)])
            terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(*terms) if len(terms) > 1 else terms[0]

    def cond(self, rel, p):
        t = self.poly(p)
        return {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0,
                "==": t == 0, "!=": t != 0}[rel]


QCACHE = {}


def solve(conds, stats, timeout_ms=10000, want_model=False, boxes=None):
    "conds: list of (rel, poly); returns 'sat'/'unsat'/'unknown', model dict"
    key = None
    if not want_model:
        key = tuple(sorted((r, p.key()) for r, p in conds))
        hit = QCACHE.get(key)
        if hit is not None:
            return hit, None
    t0 = time.time()
    enc = Encoder()
    enc.gather([p for _, p in conds])
    cs = [enc.cond(r, p) for r, p in conds]
    allint = all(P.TABLE.atoms[i].isint for i in enc.vars)
    solver = z3.Solver() if want_model or allint else z3.SolverFor("QF_NRA")
    solver.set("timeout", timeout_ms)
    solver.add(*cs)
    solver.add(*enc.side)
    if boxes:
        lo, hi = boxes
        for i, v in enc.vars.items():
            a = P.TABLE.atoms[i]
            if a.kind == "var":
                solver.add(v >= (lo if a.pos else -hi), v <= hi)
    res = str(solver.check())
    stats.queries += 1
    stats.solver_s += time.time()-t0
    setattr(stats, res, getattr(stats, res)+1)
    model = None
    if res == "sat" and want_model:
        m = solver.model()
        model = {}
        for i, v in enc.vars.items():
            a = P.TABLE.atoms[i]
            if a.kind != "var":
                continue
            val = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(val):
                    val = val.approx(12)
                fr = Fraction(val.as_fraction()) if hasattr(val, "as_fraction") \
                    else Fraction(val.as_long())
            except Exception:  # noqa
                continue
            fr = fr**self_root(enc, i)
            model[a.name] = fr
    if key is not None:
        QCACHE[key] = res
    return res, model


def self_root(enc, i):
    return enc.roots.get(i, 1)


def component(conds, target):
    "conds sharing (transitively) variables with target"
    used = closure_atoms(target[1])
    rest = [(c, closure_atoms(c[1])) for c in conds]
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for c, at in rest:
            if at & used:
                used |= at
                out.append(c)
                changed = True
            else:
                nrest.append((c, at))
        rest = nrest
    return out


# ---------------------------------------------------------------- paths
class Ctx:
    "What a harness sees; symbolic mode"
    concrete = False

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.trail = []          # decisions taken
        self.pc = []             # (rel, poly)
        self.subst = {}
        self.newpaths = []
        self.labels = []
        self.violations = []     # (label, model-query conds)
        self.unknowns = []
        self.inputs = {}         # name -> kind
        self.poison = None
        self.consts = []

    # -- inputs --
    def pos(self, name):
        "an arbitrary positive real"
        self.inputs[name] = "pos"
        return P.var(name, True)

    def real(self, name):
        "an arbitrary real"
        self.inputs[name] = "real"
        return P.var(name, False)

    def signed(self, name):
        "an arbitrary real, case-split by sign (positive, zero, negative)"
        v = self.pos(name)
        k = self.choice(name+"_sgn", 3)
        return v if k == 0 else (-v if k == 1 else 0.0)

    def nonzero(self, name):
        v = self.pos(name)
        return v if self.choice(name+"_sgn", 2) == 0 else -v

    def choice(self, name, n):
        "an arbitrary integer in range(n), case split by the solver"
        self.inputs[name] = "choice:%d" % n
        v = P.var(name, False)
        for k in range(n-1):
            if v == k:
                return k
        self.assume(v == n-1)
        return n-1

    def boolean(self, name):
        return self.choice(name, 2) == 1

    def integer(self, name, lo, hi):
        "an arbitrary integer from lo to hi, kept symbolic"
        self.inputs[name] = "int:%d:%d" % (lo, hi)
        v = P.var(name, False, isint=True)
        self.assume(v >= lo)
        self.assume(v <= hi)
        return v

    # -- decisions --
    def decide(self, sb):
        poly = normalise(sb.poly, self.subst)
        b = P.cond(sb.rel, Sym(poly))
        if type(b) is not SymBool:
            return b
        self.stats.decisions += 1
        neg = b.neg()
        # implied already?
        pos = len(self.trail)
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
        else:
            st = self.feasible(b)
            if st == "unsat":
                val, forced = False, True
            else:
                sn = self.feasible(neg)
                if sn == "unsat":
                    val, forced = True, True
                else:
                    forced = False
                    if st == "unknown" or sn == "unknown":
                        self.stats.unknown_branch = getattr(self.stats, "unknown_branch", 0)+1
                    val = b.rel not in ("==",)   # go generic first
                    self.newpaths.append(self.trail + [(not val, False)])
        self.trail.append((val, forced))
        if len(self.trail) > self.ex.max_decisions:
            raise Unsupported("too many decisions on one path")
        if not forced:
            self.add(b if val else neg)
        elif (b if val else neg).rel == "==":
            self.add(b if val else neg)   # useful as a rewrite
        return val

    def feasible(self, b):
        comp = component(self.pc, (b.rel, b.poly))
        return solve(comp+[(b.rel, b.poly)], self.stats, self.ex.branch_timeout)[0]

    def add(self, b):
        if b.rel == "==" and self.learn(b.poly):
            # renormalise stored path condition
            newpc = []
            for r, p in self.pc:
                p2 = normalise(p, self.subst)
                c = P.cond(r, Sym(p2))
                if type(c) is SymBool:
                    newpc.append((c.rel, c.poly))
                elif c is False:
                    raise PathAbort()
            self.pc = newpc
        else:
            self.pc.append((b.rel, b.poly))

    def learn(self, poly):
        "turn an equality into a substitution, when one atom is linear"
        atoms = P.TABLE.atoms
        common = None      # factors known to be nonzero are divided out
        for m in poly.t:
            at = {i for i, _ in m}
            common = at if common is None else common & at
        for i in sorted(common or ()):
            if atoms[i].pos or len(poly.t) < 2:
                continue
            one = Poly({((i, 1),): 1})
            if self.feasible(SymBool("==", one)) == "unsat":
                lo = min(dict(m)[i] for m in poly.t)
                poly = poly.mulmono(((i, -lo),))
        cands = []
        for i in poly.atoms():
            a = atoms[i]
            if a.kind != "var":
                continue
            ms = [(m, c) for m, c in poly.t.items() if any(j == i for j, _ in m)]
            if len(ms) != 1:
                continue
            (m, c), = ms
            rest = Poly({mm: cc for mm, cc in poly.t.items() if mm != m})
            other = tuple((j, e) for j, e in m if j != i)
            e = dict(m)[i]
            if any(not atoms[j].pos for j, _ in other):
                continue
            if any(i in closure_atoms(Poly({((j, 1),): 1})) for mm in rest.t for j, _ in mm):
                continue
            if any(i in closure_atoms(Poly({((j, 1),): 1})) for j, _ in other):
                continue
            if e != 1 and not (a.pos and len(rest.t) == 1):
                continue
            val = Sym(rest.scale(q(Fraction(-1)/c)).mulmono(mono_pow(other, -1)))
            if a.pos:
                sg = val.num.sign()
                if sg is None:
                    continue   # keep the positivity constraint explicit instead
                if sg <= 0:
                    continue
                if e != 1:
                    val = val**q(Fraction(1)/e)
            cands.append((len(rest.t), i, val))
        if not cands:
            return False
        _, i, val = min(cands, key=lambda t: (t[0], -t[1]))
        for j in list(self.subst):
            self.subst[j] = self.resub(self.subst[j], {i: val})
        self.subst[i] = val
        return True

    def resub(self, s, sub):
        if closure_atoms(s.num) & sub.keys():
            tot = Sym(P.ZERO)
            # exact (numerator & denominators) substitution through Sym arithmetic
            for m, c in s.num.t.items():
                term = Sym(P.poly_const(c))
                for i, e in m:
                    if i in sub:
                        term = term*(sub[i]**e)
                    else:
                        one = substitute(Poly({((i, 1),): 1}), sub)
                        term = term*(Sym(one)**e)
                tot = tot + term
            return tot
        return s

    def assume(self, cond):
        "restrict to inputs satisfying cond (documented precondition)"
        if type(cond) is SymBool:
            poly = normalise(cond.poly, self.subst)
            b = P.cond(cond.rel, Sym(poly))
            if type(b) is SymBool:
                pos = len(self.trail)
                if pos < len(self.prefix):
                    st = "sat"
                else:
                    st = self.feasible(b)
                self.trail.append((True, st))
                if st == "unsat":
                    raise PathAbort()
                self.add(b)
                return
            cond = b
        if not cond:
            raise PathAbort()

    # -- assertions --
    def check(self, cond, label):
        self.labels.append(label)
        self.stats.checks += 1
        if type(cond) is not SymBool:
            if isinstance(cond, float) and math.isnan(float(cond)):
                raise Unsupported("nan in check "+label)
            self._discharge_const(bool(cond))
            if not cond:
                self.violations.append((label, list(self.pc), None))
            return
        poly = normalise(cond.poly, self.subst)
        b = P.cond(cond.rel, Sym(poly))
        if type(b) is not SymBool:
            self._discharge_const(b)
            if not b:
                self.violations.append((label, list(self.pc), None))
            return
        neg = b.neg()
        comp = component(self.pc, (neg.rel, neg.poly))
        res, _ = solve(comp+[(neg.rel, neg.poly)], self.stats, self.ex.check_timeout)
        if res == "sat":
            self.violations.append((label, list(self.pc), (neg.rel, neg.poly)))
        elif res == "unknown":
            self.unknowns.append((label, list(self.pc), (neg.rel, neg.poly)))

    def refute(self, conds, label):
        "assert that the conditions cannot all hold (one query, no forks)"
        self.labels.append(label)
        self.stats.checks += 1
        live = []
        for cond in conds:
            if type(cond) is SymBool:
                b = P.cond(cond.rel, Sym(normalise(cond.poly, self.subst)))
                if type(b) is SymBool:
                    live.append((b.rel, b.poly))
                    continue
                cond = b
            if not cond:
                self._discharge_const(True)
                return
        res = "sat"
        if live:
            comp = list(self.pc) + live
            res, _ = solve(comp, self.stats, self.ex.check_timeout)
        if res != "unsat":
            dest = self.violations if res == "sat" else self.unknowns
            dest.append((label, list(self.pc)+live[:-1], live[-1] if live else None))

    def _discharge_const(self, value):
        "the assertion normalised to a constant; closed by one query per path"
        self.consts.append(bool(value))

    def close_consts(self):
        if not self.consts:
            return
        t0 = time.time()
        s = z3.Solver()
        s.add(z3.Not(z3.And([z3.BoolVal(v) for v in self.consts])))
        res = str(s.check())
        self.stats.queries += 1
        setattr(self.stats, res, getattr(self.stats, res)+1)
        self.stats.solver_s += time.time()-t0
        assert (res == "unsat") == all(self.consts)

    def eq(self, a, b, label):
        if type(a) is not Sym and type(b) is not Sym:
            fa, fb = float(a), float(b)
            if math.isnan(fa) or math.isnan(fb):
                return self.check(math.isnan(fa) and math.isnan(fb), label)
            if math.isinf(fa) or math.isinf(fb):
                return self.check(fa == fb, label)
        c = Sym.coerce(a)
        d = Sym.coerce(b)
        if c is None or d is None:
            return self.check(False, label+" (not numeric: %r, %r)" % (a, b))
        if type(c) is float or type(d) is float:
            return self.check(type(c) is float and type(d) is float and c == d, label)
        cond = P.cond("==", c._add(d, -1))
        if type(cond) is SymBool:
            poly = normalise(cond.poly, self.subst)
            if poly.t and self.close(c, d):
                cond = True
        elif cond is False and self.close(c, d):
            cond = True
        return self.check(cond, label)

    def close(self, c, d, rtol=1e-9):
        """equal up to float rounding of literal factors: every monomial's
        coefficients on the two sides agree to rtol (marker atom splits sides)"""
        mark = P.var("__mark", True)
        num = normalise((c*mark)._add(d, -1).num, self.subst)
        mi = P.TABLE.byname["__mark"].idx
        groups = {}
        for m, co in num.t.items():
            side, val, rest = 0, float(co), []
            for i, e in m:
                a = P.TABLE.atoms[i]
                if i == mi:
                    side = 1
                    if e != 1:
                        return False
                elif a.kind == "const":
                    val *= (math.e if a.data == "e" else float(a.data))**float(e)
                else:
                    rest.append((i, e))
            g = groups.setdefault(tuple(rest), [0.0, 0.0])
            g[side] += val
        return bool(groups) and all(
            abs(x+y) <= rtol*max(abs(x), abs(y)) for x, y in groups.values())

    def le(self, a, b, label):
        return self.check(Sym.coerce(a) <= b, label)

    def ge(self, a, b, label):
        return self.check(Sym.coerce(a) >= b, label)

    def lt(self, a, b, label):
        return self.check(Sym.coerce(a) < b, label)

    def holds(self, cond):
        "fork on a condition (both outcomes explored)"
        return bool(cond)

    def exp(self, x):
        return P.sym_exp(x)

    def log(self, x):
        return P.sym_log(x)

    def taint(self, why):
        self.poison = why

    def fresh(self, name, *args, pos=False):
        "uninterpreted real function of symbolic arguments"
        syms = [Sym.coerce(a) for a in args]
        f = P.TABLE.fun(name, tuple(s.key() for s in syms), pos, syms)
        return Sym(Poly({((f.idx, 1),): 1}))


class ConcreteCtx:
    "Same interface on ordinary floats, used for replays on unpatched code"
    concrete = True
    rtol = 1e-6

    def __init__(self, values, rng=None):
        self.values = dict(values)
        self.rng = rng
        self.used = {}
        self.labels = []
        self.failures = []

    def _get(self, name, kind):
        if name not in self.values:
            if self.rng is not None:
                r = self.rng
                # sums and products of a few stay exact in floating point
                ugly = 1 if r.random() < 0.6 else Fraction(r.randint(2**10, 2**11), 2**10)
                if kind == "pos":
                    v = Fraction(r.randint(1, 64), r.choice([1, 2, 4, 8, 16]))*ugly
                elif kind == "real":
                    v = Fraction(r.randint(-48, 48), r.choice([1, 2, 4, 8]))*ugly
                elif kind.startswith("int"):
                    _, lo, hi = kind.split(":")
                    v = Fraction(r.randint(int(lo), int(hi)))
                else:
                    v = Fraction(r.randrange(int(kind.split(":")[1])))
                self.values[name] = v
            elif kind.startswith("choice"):
                self.values[name] = Fraction(0)
            elif kind.startswith("int"):
                self.values[name] = Fraction(int(kind.split(":")[1]))
            else:
                self.values[name] = Fraction(3, 2)
        self.used[name] = self.values[name]
        return self.values[name]

    def pos(self, name):
        v = float(self._get(name, "pos"))
        if v <= 0:
            raise Assumed(name)
        return v

    def real(self, name):
        return float(self._get(name, "real"))

    signed = Ctx.signed
    nonzero = Ctx.nonzero

    def choice(self, name, n):
        return int(self._get(name, "choice:%d" % n))

    def boolean(self, name):
        return self.choice(name, 2) == 1

    def integer(self, name, lo, hi):
        v = int(self._get(name, "int:%d:%d" % (lo, hi)))
        if not lo <= v <= hi:
            raise Assumed(name)
        return v

    def assume(self, cond):
        if not cond:
            raise Assumed()

    def check(self, cond, label):
        self.labels.append(label)
        if not cond:
            self.failures.append(label)

    def refute(self, conds, label):
        self.check(not all(bool(c) for c in conds), label)

    def _tol(self, a, b):
        return self.rtol*max(abs(a), abs(b)) + 1e-9

    def eq(self, a, b, label):
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return self.check(False, label+" (not numeric)")
        if fa == fb or (math.isnan(fa) and math.isnan(fb)):
            return self.check(True, label)
        if not (math.isfinite(fa) and math.isfinite(fb)):
            if getattr(self, "overflow_ok", True) and max(
                    abs(x) for x in (fa, fb) if math.isfinite(x) or True) > 1e290:
                self.labels.append(label)
                return None
            return self.check(False, label+" (%r vs %r)" % (fa, fb))
        return self.check(abs(fa-fb) <= self._tol(fa, fb), label+" (%r vs %r)" % (fa, fb)
                          if abs(fa-fb) > self._tol(fa, fb) else label)

    def le(self, a, b, label):
        return self.check(a <= b + self._tol(a, b), label)

    def ge(self, a, b, label):
        return self.check(a >= b - self._tol(a, b), label)

    def lt(self, a, b, label):
        return self.check(a < b + self._tol(a, b), label)

    def holds(self, cond):
        return bool(cond)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def taint(self, why):
        pass

    def fresh(self, name, *args, pos=False):
        "a fixed smooth test function standing in for the uninterpreted one"
        seed = sum(ord(ch)*(i+1) for i, ch in enumerate(name)) % 97
        v = 1.0 + seed/50.0
        for i, a in enumerate(args):
            v += (i+1)*0.37*math.atan(float(a)) / (1+i)
        return abs(v)+0.1 if pos else v


class Explorer:
    def __init__(self, fn, reset, max_paths=4000, max_decisions=4000,
                 branch_timeout=4000, check_timeout=20000, deadline=None, seed=1):
        self.fn, self.reset = fn, reset
        self.max_paths, self.max_decisions = max_paths, max_decisions
        self.branch_timeout, self.check_timeout = branch_timeout, check_timeout
        self.deadline = deadline
        self.stats = Stats()
        self.results = []       # candidate violations
        self.witnesses = []     # one model per path
        self.labels = {}
        self.incomplete = None
        self.samples = []
        self.rng = random.Random(seed)

    def run(self, max_witnesses=40, prefixes=None, slice_s=None):
        """explores the given prefixes depth first; stops after slice_s and
        leaves the rest in self.pending"""
        work = [[]] if prefixes is None else list(prefixes)
        self.pending = []
        t_slice = time.time()
        table = P.AtomTable()
        P.set_table(table)
        while work:
            if self.stats.paths >= self.max_paths:
                self.incomplete = "path bound %d reached" % self.max_paths
                break
            if slice_s and self.stats.paths and time.time()-t_slice > slice_s:
                self.pending = work
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete = "time budget reached after %d paths" % self.stats.paths
                break
            prefix = work.pop()
            ctx = Ctx(self, prefix)
            P.set_ctx(ctx)
            self.reset()
            aborted = False
            err = None
            try:
                self.fn(ctx)
            except PathAbort:
                aborted = True
            except Unsupported as e:
                self.incomplete = "unsupported: %s\n%s" % (
                    e, "".join(traceback.format_exc().splitlines(True)[-8:]))
            except Exception as e:  # noqa  pylint: disable=broad-except
                err = "%s: %s" % (type(e).__name__, str(e)[:200])
                tb = traceback.format_exc()
                ctx.violations.append(("exception "+err, list(ctx.pc), None))
                ctx.tb = tb
            work.extend(ctx.newpaths)
            if aborted:
                continue
            self.stats.paths += 1
            ctx.close_consts()
            if ctx.poison:
                self.incomplete = "poison: %s" % ctx.poison
            for lab in ctx.labels:
                self.labels[lab] = self.labels.get(lab, 0)+1
            for label, pc, neg in ctx.violations:
                self.results.append(self.candidate(ctx, label, pc, neg,
                                                   getattr(ctx, "tb", None)))
            for label, pc, neg in ctx.unknowns:
                self.results.append(dict(self.candidate(ctx, label, pc, neg), unknown=True))
            if len(self.results) > 60:
                self.incomplete = "stopped after 60 candidate violations"
                break
            if len(self.witnesses) < max_witnesses or self.rng.random() < 0.01:
                w = self.model(ctx, ctx.pc, None, simple=True)
                if w is not None:
                    self.witnesses.append(w)
            if len(self.samples) < 3:
                self.samples.append({
                    "path_condition": [str(SymBool(r, p))[:160] for r, p in ctx.pc][:12],
                    "equalities": {P.TABLE.atoms[i].name: s.expr()[:80]
                                   for i, s in list(ctx.subst.items())[:8]},
                    "checks": ctx.labels[:12]})
        return self

    def candidate(self, ctx, label, pc, neg, tb=None):
        models = []
        m = self.model(ctx, pc, neg, simple=True)
        if m is not None:
            models.append(m)
        m = self.model(ctx, pc, neg)
        if m is not None:
            models.append(m)
        return {"label": label, "models": models, "tb": tb,
                "inputs": dict(ctx.inputs),
                "pc": [str(SymBool(r, p))[:200] for r, p in pc][:200],
                "neg": str(SymBool(*neg))[:300] if neg else None}

    def model(self, ctx, pc, neg, simple=False):
        conds = list(pc)
        if neg:
            conds.append(neg)
        res, model = ("sat", {})
        if conds:
            tries = [(Fraction(1, 4), 8), (Fraction(1, 100), 100)] if simple else [None]
            res = None
            for boxes in tries:
                if boxes:
                    boxes = (z3.RealVal(str(boxes[0])), z3.RealVal(boxes[1]))
                res, model = solve(conds, self.stats, 3000, want_model=True, boxes=boxes)
                if res == "sat":
                    break
            if res != "sat":
                return None
        for name, kind in ctx.inputs.items():
            idx = P.TABLE.byname[name].idx
            if name not in model and idx not in ctx.subst:
                # unconstrained: varied, simple values
                model[name] = Fraction(self.rng.randint(3, 24), 8) if kind == "pos" \
                    else (Fraction(self.rng.randint(-8, 8), 4) if kind == "real"
                          else Fraction(self.rng.randint(*map(int, kind.split(":")[1:])))
                          if kind.startswith("int") else Fraction(0))
        for _ in range(3):
            for name in ctx.inputs:
                idx = P.TABLE.byname[name].idx
                if name not in model and idx in ctx.subst:
                    v = evaluate(ctx.subst[idx], model)
                    if v is not None:
                        model[name] = v
        out = {}
        for n in ctx.inputs:
            if n in model:
                v = model[n]
                out[n] = str(v) if not isinstance(v, float) else str(Fraction(v))
        return out


def evaluate(s, model):
    "numeric value of a Sym under {name: Fraction}; float if inexact"
    table = P.TABLE

    def atom(i):
        a = table.atoms[i]
        if a.kind == "var":
            return model[a.name]
        if a.kind == "const":
            return math.e if a.data == "e" else Fraction(a.data)
        if a.kind == "base":
            return poly(a.data)
        if a.kind == "log":
            return math.log(atom(a.data))
        if a.kind == "pw":
            e = 1
            for j, p in a.data[1]:
                e = e*power(atom(j), p)
            return power(atom(a.data[0]), e)
        if a.kind == "fun" and a.data[0] == "exp":
            return math.exp(evaluate(a.data[1][0], model))
        raise KeyError

    def power(b, e):
        if isinstance(e, (int, Fraction)) and Fraction(e).denominator == 1 and abs(e) < 40:
            return Fraction(b)**int(e) if not isinstance(b, float) else b**int(e)
        return float(b)**float(e)

    def poly(p):
        tot = Fraction(0)
        for m, c in p.t.items():
            t = Fraction(c)
            for i, e in m:
                t = t*power(atom(i), e)
            tot = tot + t
        return tot
    try:
        v = poly(s.num)
        for dp, p in s.den.values():
            v = v/power(poly(dp), p)
        return v
    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
        return None
