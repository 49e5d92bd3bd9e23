"Shared by the program harnesses: term-level models and reference Lagrangians."
import numpy as np
from .lib import *


def arr(ctx, vals):
    "a solver's array of floats"
    vals = list(vals)
    if ctx.concrete:
        return np.array([float(v) for v in vals])
    out = np.empty(len(vals), dtype=object)
    out[:] = vals
    return out


class Terms:
    "a sum of (coefficient, {name: exponent}) kept outside gpkit"
    def __init__(self, terms):
        self.terms = list(terms)

    def nomial(self, xs):
        tot = 0
        for c, exp in self.terms:
            t = c
            for n, e in exp.items():
                t = t*xs[n]**e
            tot = tot + t
        return tot

    def values(self, point):
        out = []
        for c, exp in self.terms:
            v = c
            for n, e in exp.items():
                v = v*point[n]**e
            out.append(v)
        return out

    def value(self, point):
        return sum(self.values(point))

    def scaled(self, mono):
        "divided by a single term"
        (c, exp), = mono.terms
        out = []
        for c2, e2 in self.terms:
            e = dict(e2)
            for n, p in exp.items():
                e[n] = e.get(n, 0) - p
            out.append((c2/c, {n: p for n, p in e.items() if p != 0}))
        return Terms(out)

    def merged(self):
        out = {}
        for c, exp in self.terms:
            k = tuple(sorted(exp.items()))
            out[k] = out.get(k, 0) + c
        return Terms([(c, dict(k)) for k, c in out.items()])


def dlog_sum(terms, point, name):
    "d log(sum)/d log(name)"
    vals = terms.values(point)
    num = sum(v*exp.get(name, 0) for v, (_, exp) in zip(vals, terms.terms))
    return num/sum(vals)


def dlog_leq1(terms, point, name, fixed):
    """d log P/d log(name) for the normal form P <= 1 of  sum(terms) <= 1: the
    wholly fixed terms are moved to the right-hand side.
    None if nothing variable is left"""
    const, free = [], []
    for t in terms.terms:
        (free if any(n not in fixed for n in t[1]) else const).append(t)
    if not free:
        return None
    const, free = Terms(const), Terms(free)
    out = dlog_sum(free, point, name)
    if const.terms:
        vals = const.values(point)
        out = out + sum(v*exp.get(name, 0) for v, (_, exp)
                        in zip(vals, const.terms))/(1 - sum(vals))
    return out


def const_part(terms, point, fixed):
    return sum([v for v, (_, exp) in zip(terms.values(point), terms.terms)
                if all(n in fixed for n in exp)])


def shares(gp, point_log, ctx):
    "each monomial's share of its posynomial, in the order given to solvers"
    out = []
    for p in range(len(gp.k)):
        vals = []
        for i in range(len(gp.cs)):
            if gp.p_idxs[i] == p:
                v = gp.cs[i]
                for vk, e in gp.exps[i].items():
                    v = v*point_log[vk]**e
                vals.append(v)
        tot = sum(vals)
        out.append([v/tot for v in vals])
    return out
