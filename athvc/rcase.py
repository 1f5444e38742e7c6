"""real-valued case analysis: prove expr == 0 (or a comparison) under preconditions, splitting on the
conditions the code tests; leaves are decided by polynomial normal form, then z3 (nlsat) for infeasible
or equality-constrained leaves."""
import time
from fractions import Fraction
import z3
from .terms import *
from .poly import *
from .decide import Budget, has_abstraction
from . import numev

Z3STAT = dict(calls=0, time=0.0)


class Z3R:
    """translate normalised polynomials / conditions to z3 reals"""

    def __init__(self, N):
        self.N = N
        self.v = {}
        self.side = []

    def atom(self, a):
        r = self.v.get(a)
        if r is not None:
            return r
        if a.op == "ite":
            r = z3.If(self.cond(a.args[0]), self.term(a.args[1]), self.term(a.args[2]))
        elif a.op == "poly":
            r = self.term(a)
        else:
            r = z3.Real("a%d" % a.id)
            self.v[a] = r
            if a.op == "app" and a.args[0] == "sqrt":
                x = self.term(a.args[1][0])
                self.side += [r >= 0, r * r == x]
            elif a.op == "app" and a.args[0] == "fabs":
                x = self.term(a.args[1][0])
                self.side += [r == z3.If(x >= 0, x, -x)]
            elif a.op == "inv":
                x = self.term(a.args[0])
                self.side += [r * x == 1]
        self.v[a] = r
        return r

    def term(self, t):
        if t.op == "rc":
            f = t.args[0]
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        if t.op == "poly":
            return self.poly(dict(t.args[0]))
        if t.op in ("+", "*", "/", "neg"):
            return self.poly(self.N.norm(t))
        return self.atom(t)

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in p.items():
            x = z3.RealVal("%d/%d" % (Fraction(c).numerator, Fraction(c).denominator))
            for a, e in m:
                b = self.atom(a)
                if e < 0:
                    iv = self.v.get(("inv", a))
                    if iv is None:
                        iv = z3.Real("i%d" % a.id)
                        self.v[("inv", a)] = iv
                        self.side.append(iv * b == 1)
                    b = iv
                for _ in range(abs(e)):
                    x = x * b
            out.append(x)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def cond(self, c):
        op = c.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And([self.cond(x) for x in c.args])
        if op == "or":
            return z3.Or([self.cond(x) for x in c.args])
        if op == "not":
            return z3.Not(self.cond(c.args[0]))
        if op in ("rlt", "rle", "req"):
            a, b = self.term(c.args[0]), self.term(c.args[1])
            return a < b if op == "rlt" else a <= b if op == "rle" else a == b
        return z3.Bool("b%d" % c.id)


def solve(N, conds, ms=4000):
    """z3 on a list of normalised conditions -> ('unsat'|'sat'|'unknown', model dict)"""
    Z = Z3R(N)
    cs = [Z.cond(c) for c in conds]
    s = z3.SolverFor("QF_NRA") if False else z3.Solver()
    s.set("timeout", ms)
    for c in cs + Z.side:
        s.add(c)
    t0 = time.time()
    r = s.check()
    Z3STAT["calls"] += 1
    Z3STAT["time"] += time.time() - t0
    m = None
    if r == z3.sat:
        mod = s.model()
        m = {}
        for a, v in Z.v.items():
            if isinstance(a, T):
                try:
                    m[show(a, 3)] = str(mod.eval(v, model_completion=False))
                except Exception:
                    pass
    return str(r), m


def _polyof(N, t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "rc":
        return {ONE: t.args[0]} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def lin_unsat(N, conds, ms=400):
    """sound quick infeasibility test: every nonlinear monomial is an independent variable, with the sign that
    follows from the atoms known to be positive"""
    pos, nonneg = set(), set()
    rows = []
    for c in conds:
        neg_ = c.op == "not"
        d = c.args[0] if neg_ else c
        if d.op in ("and", "or") or d.op not in ("rlt", "rle", "req"):
            continue
        p = padd(_polyof(N, d.args[0]), _polyof(N, d.args[1]), -1)
        op = d.op
        if neg_:
            if op == "req":
                continue
            p = pscale(p, -1)
            op = "rle" if op == "rlt" else "rlt"
        rows.append((op, p))
        if len(p) <= 2 and op in ("rlt", "rle"):
            k = p.get(ONE, Fraction(0))
            o = [m for m in p if m != ONE]
            if len(o) == 1 and len(o[0]) == 1 and o[0][0][1] == 1 and p[o[0]] < 0 and (k > 0 or (k == 0 and op == "rlt")):
                pos.add(o[0][0][0])
    v = {}
    cs = []
    for op, p in rows:
        e = z3.RealVal(0)
        for m, c in p.items():
            x = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            if m != ONE:
                if m not in v:
                    v[m] = z3.Real("m%d" % len(v))
                    strict = all(a in pos or (False) for a, ex in m)
                    weak = all(a in pos or ex % 2 == 0 or (a.op == "app" and a.args[0] in ("sqrt", "fabs")) for a, ex in m)
                    if strict:
                        cs.append(v[m] > 0)
                    elif weak:
                        cs.append(v[m] >= 0)
                x = x * v[m]
            e = e + x
        cs.append(e < 0 if op == "rlt" else e <= 0 if op == "rle" else e == 0)
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", ms)
    s.add(cs)
    Z3STAT["calls"] += 1
    t0 = time.time()
    r = s.check()
    Z3STAT["time"] += time.time() - t0
    return r == z3.unsat


def conds_of(t, out, seen, sign=True):
    """undecided atomic real conditions below a term, innermost first"""
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        _bconds(t.args[0], out, seen)
        conds_of(t.args[1], out, seen)
        conds_of(t.args[2], out, seen)
    elif t.op == "poly":
        for m, c in t.args[0]:
            for a, e in m:
                conds_of(a, out, seen)
    elif t.op in ("app",):
        for x in t.args[1]:
            if isinstance(x, T):
                if x.sort == "b":
                    _bconds(x, out, seen)
                else:
                    conds_of(x, out, seen)
    elif t.op in ("inv", "neg", "+", "*", "/"):
        for x in t.args:
            conds_of(x, out, seen)


def _bconds(c, out, seen):
    if c.op in ("and", "or", "not"):
        for x in c.args:
            _bconds(x, out, seen)
        return
    if c in seen:
        return
    seen.add(c)
    if c.op in ("rlt", "rle", "req"):
        n = len(out)
        for x in c.args:
            conds_of(x, out, seen)
        if len(out) == n:
            out.append(c)
    elif c.op in ("ile0", "ieq0"):
        out.append(c)


def poly_conds(p):
    out = []
    seen = set()
    for m in p:
        for a, e in m:
            conds_of(a, out, seen)
    return out


def neg(c):
    """negation of an atomic comparison, as (list of alternatives) atomic comparisons"""
    return bnot(c)


class Case:
    """result of prove_zero"""

    def __init__(self, status, detail="", leaves=0):
        self.status = status
        self.detail = detail
        self.leaves = leaves


def prove_zero(expr, pre=(), sub=None, unf=None, fold_app=None, budget=60, z3ms=4000, maxleaves=2000, generic=False, hints=(), tries=240):
    """expr == 0 for all values satisfying the comparisons in `pre`.
    generic=True: ties (equality in a comparison the code branches on) are excluded"""
    t0 = time.time()
    st = dict(leaves=0)
    cx = numev.falsify(expr, pre, tries) if tries and not generic else None
    if cx is not None:
        return Case("failed", "concrete failing input: %s -> residual %s" % (cx[0][:900], cx[1]))
    t0 = time.time()

    def go(assume, conds, depth):
        if time.time() - t0 > budget:
            return Case("unknown", "time budget")
        N = Norm(unf, sub=sub, fold_app=fold_app)
        N.ratdiv = True
        for c, v in assume.items():
            N.assume[c] = v
        npre = [N.bnorm(c) for c in pre]
        if any(c is FALSE for c in npre):
            return None
        for c in npre:
            if c.op in ("rlt", "rle", "req"):
                _assume(N, c)
        try:
            p = N.norm(expr)
        except TooBig as e:
            return Case("unknown", "expression too large " + str(e))
        if not p:
            st["leaves"] += 1
            return None
        cs = poly_conds(p)
        if cs and depth < 60:
            c = cs[0]
            for br in (c, bnot(c)):
                a2 = dict(assume)
                _asm(a2, br, generic)
                cond2 = conds + [br]
                if lin_unsat(N, npre + conds + [br]):
                    st["leaves"] += 1
                    continue
                res = go(a2, cond2, depth + 1)
                if res is not None:
                    return res
                if st["leaves"] > maxleaves:
                    return Case("unknown", "too many cases")
            return None
        st["leaves"] += 1
        try:
            if N.iszero(p):
                return None
        except TooBig:
            return Case("unknown", "denominators")
        ptm = pterm(p)
        ne = bnot(rcmp("==", ptm, R0))
        r, m = solve(N, npre + conds + [ne], z3ms)
        if r == "unsat":
            return None
        det = "residual %s under %s" % (showp(p, 6)[:800], [show(c, 4) for c in conds][:6])
        ab = any(has_abstraction(a) or _uninterp(a) for mm in p for a, e in mm)
        if r == "sat" and not ab:
            return Case("failed", det + " model %s" % (str(m)[:600]))
        return Case("unknown", det)

    r = go({}, [], 0)
    if r is None:
        return Case("proved", leaves=st["leaves"])
    r.leaves = st["leaves"]
    return r


def _uninterp(a):
    return any(x.op == "app" and x.args[0] not in ("sqrt", "fabs") for x in subterms(a))


def _assume(N, c):
    a = {}
    _asm(a, c, False)
    for k, v in a.items():
        N.assume.setdefault(k, v)


def _negpoly(p):
    if p.op == "poly":
        return pterm(pscale(dict(p.args[0]), -1))
    if p.op == "rc":
        return rconst(-p.args[0])
    return pterm({((p, 1),): Fraction(-1)})


def _asm(a, br, generic):
    """record an assumed comparison and everything it settles (same polynomial, other operators)"""
    pos = True
    c = br
    if c.op == "not":
        c = c.args[0]
        pos = False
    if c.op not in ("rlt", "rle", "req") or not (c.args[0] is R0 or c.args[1] is R0):
        a[c] = TRUE if pos else FALSE
        a[bnot(c)] = FALSE if pos else TRUE
        return
    if c.args[1] is R0:
        p = c.args[0]
        q = _negpoly(p)
    else:
        q = c.args[1]
        p = _negpoly(q)
    # c says: p op 0

    def s(x, v):
        a[x] = TRUE if v else FALSE
        a[bnot(x)] = FALSE if v else TRUE
    lt, le, gt, ge = rcmp("<", p, R0), rcmp("<=", p, R0), rcmp("<", q, R0), rcmp("<=", q, R0)
    eqs = (rcmp("==", p, R0), rcmp("==", q, R0))
    op = c.op
    if not pos:
        op = {"rlt": "rge", "rle": "rgt", "req": "rne"}[op]
    if op == "rle" and generic:
        op = "rlt"
    if op == "rge" and generic:
        op = "rgt"
    tab = {"rlt": (1, 1, 0, 0, 0), "rle": (None, 1, 0, None, None), "rgt": (0, 0, 1, 1, 0), "rge": (0, None, None, 1, None),
           "req": (0, 1, 0, 1, 1), "rne": (None, None, None, None, 0)}[op]
    for x, v in zip((lt, le, gt, ge), tab):
        if v is not None:
            s(x, bool(v))
    if tab[4] is not None:
        for e in eqs:
            s(e, bool(tab[4]))
