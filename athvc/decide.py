"""decision procedures on symbolic results: telescoping, identities"""
import sys
from .terms import *
from .poly import *
sys.setrecursionlimit(200000)


def shift_of(t, ivars, acc):
    """collect constant offsets of index arguments w.r.t. each index variable"""
    for x in subterms(t, stop=None):
        if x.op in ("inst", "sel0"):
            for a in x.args[1]:
                if a.sort != "i":
                    continue
                c, items = iparts(a)
                d = dict(items)
                for n, v in enumerate(ivars):
                    if d.get((v,)) == 1:
                        acc[n].append(c)


def translate_mono(rest, ivars):
    acc = [[] for _ in ivars]
    for a, e in rest:
        shift_of(a, ivars, acc)
    sh = tuple(min(x) if x else 0 for x in acc)
    rest = tuple((renorm(a), e) if a.op in ("app", "ite") else (a, e) for a, e in rest)
    m = {v: isub(iatom(v), iconst(s)) for v, s in zip(ivars, sh) if s}
    out = tuple(sorted(((renorm(subst(a, m)) if a.op in ("app", "ite") else subst(a, m), e) for a, e in rest), key=lambda ae: ae[0].id))
    return sh, out


def renorm(a):
    """normal form of the arguments of a translated application (substitution does not keep it)"""
    p = Norm().norm(a)
    if len(p) == 1:
        ((m, c),) = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return a


def classes(p, ivars):
    """group monomials by shift class"""
    vs = set(ivars)
    cl = {}
    for m, c in p.items():
        co = tuple((a, e) for a, e in m if not (a.fv & vs))
        rest = tuple((a, e) for a, e in m if a.fv & vs)
        if not rest:
            cl.setdefault((co, ()), {})
            d = cl[(co, ())]
            d[None] = d.get(None, 0) + c
            continue
        sh, r = translate_mono(rest, ivars)
        d = cl.setdefault((co, r), {})
        d[sh] = d.get(sh, 0) + c
    return cl


def zerosum(p, ivars):
    """weaker form of telescopes: every class is a combination of translates of one value with coefficients adding up to zero
    (any such combination is a sum of differences of interface values)"""
    return [(key, d) for key, d in classes(p, ivars).items() if sum(d.values()) or (None in d and d[None])]


def telescopes(p, ivars):
    """True, [] if every class is (value at one face) - (value at the neighbouring face); else the bad classes"""
    bad = []
    for key, d in classes(p, ivars).items():
        d = {s: c for s, c in d.items() if c}
        if not d:
            continue
        ok = False
        if None not in d and len(d) == 2:
            (s1, c1), (s2, c2) = d.items()
            df = [b - a for a, b in zip(s1, s2)]
            if c1 + c2 == 0 and sorted(abs(x) for x in df) == [0] * (len(df) - 1) + [1]:
                ok = True
        if not ok:
            bad.append((key, d))
    return bad


import time


class Budget(Exception):
    pass


def has_abstraction(t):
    """does a term mention an over-approximated (havocked) value?"""
    for x in subterms(t):
        if x.op in ("inst", "fold"):
            d = x.args[0] if x.op == "inst" else x.args[1]
            if d.body is None and d.name.startswith(("head:", "hv:", "hd:", "unk:")):
                return True
    return False


def poly_abstract(p):
    return any(has_abstraction(a) for m in p for a, e in m)


def undef(p):
    """instances that can be unfolded, appearing in a polynomial (outermost first)"""
    new = set()
    for m in p:
        for a, e in m:
            for x in subterms(a, stop=lambda z: z.op == "inst"):
                if x.op == "inst" and x.args[0].body is not None:
                    new.add(x.args[0])
    return new


def expand_conserved(delta, ivars, maxrounds=200, maxterms=20000, budget=120, F=None, fold_app=None, crit=telescopes):
    """unfold definitions step by step until the cell update is a difference of face values.
    -> (True, poly, N) | (False, poly, badclasses) | (None, reason, badclasses)"""
    unfolded = set()
    t0 = time.time()

    def unf(t):
        if time.time() - t0 > budget:
            raise Budget()
        if t.args[0] in unfolded:
            return unfold(t)
        return None
    last = None
    p = None
    try:
        for rnd in range(maxrounds):
            N = Norm(unf, F=F, fold_app=fold_app)
            p = N.norm(delta)
            bad = crit(p, ivars)
            if not bad:
                return True, p, N
            last = bad
            if len(p) > maxterms:
                return None, "expression too large", last
            new, late = set(), set()
            for (co, rest), d in bad:
                for a, e in rest + co:
                    for x in subterms(a, stop=lambda z: z.op == "inst"):
                        if x.op == "inst" and x.args[0].body is not None and x.args[0] not in unfolded:
                            (new if len(rest) == 1 else late).add(x.args[0])
            if not new and late:
                new = {max(late, key=lambda q: q.id)}     # in products: the latest assignment first
            if not new:
                return (None if poly_abstract(p) else False), p, last
            unfolded |= new
            if time.time() - t0 > budget:
                raise Budget()
    except (Budget, TooBig):
        return None, "budget", last
    return None, "no fixpoint", last


def int_conditions(p):
    """undecided integer conditions of top-level conditionals"""
    out = []
    for m in p:
        for a, e in m:
            if a.op == "ite":
                for c in _intconds(a.args[0]):
                    if c not in out:
                        out.append(c)
    return out


def _intconds(c):
    if c.op in ("ile0", "ieq0"):
        return [c]
    if c.op in ("and", "or", "not"):
        r = []
        for x in c.args:
            r += _intconds(x)
        return r
    return []


def expand_zero(expr, maxrounds=60, maxterms=50000, sub=None, F=None, budget=120, fold_app=None, split=True, _dl=None, _unf=None,
                depth=0, normfac=None):
    """prove expr == 0, unfolding definitions lazily and splitting on integer conditions.
    -> (True|False|None, poly or reason, N)"""
    unfolded = set(_unf or ())
    dl = _dl or (time.time() + budget)

    def unf(t):
        if time.time() > dl:
            raise Budget()
        if t.args[0] in unfolded:
            return unfold(t)
        return None
    N = None
    try:
        for rnd in range(maxrounds):
            N = normfac(unf, F) if normfac else Norm(unf, sub=sub, F=F, fold_app=fold_app)
            p = N.norm(expr)
            if not p:
                return True, p, N
            if F is not None and split and depth < 12:
                cs = int_conditions(p)
                if cs:
                    c = cs[0]
                    for cc in (c, bnot(c)):
                        F2 = F.extend(cc)
                        ok, q, N2 = expand_zero(expr, maxrounds, maxterms, sub, F2, budget, fold_app, split, dl, unfolded, depth + 1, normfac)
                        if not ok:
                            return ok, q, N2
                    return True, {}, N
            if N.iszero(p):
                return True, p, N
            new = {d for d in undef(p) if d not in unfolded}
            if not new:
                return (None if poly_abstract(p) else False), p, N
            if len(p) > maxterms:
                return None, "expression too large", N
            unfolded |= new
            if time.time() > dl:
                raise Budget()
    except (Budget, TooBig):
        return None, "budget", N
    return None, "no fixpoint", N
