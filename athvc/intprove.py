"""Integer entailment: facts |- goal  (linear fast path, z3 fallback)."""
import z3
from .terms import *

STATS = {"fast": 0, "z3": 0, "z3_time": 0.0}
_cache = {}


def flat(facts):
    out = []
    st = list(facts)
    while st:
        f = st.pop()
        if f.op == "and":
            st.extend(f.args)
        else:
            out.append(f)
    return out


def _lin(p):
    c, items = p.args
    return c, {m: k for m, k in items}


class Facts:
    """immutable fact set with linear index"""
    __slots__ = ("fs", "ineqs", "up", "others", "_key")

    def __init__(self, fs):
        self.fs = tuple(fs)
        self.ineqs = []
        self.others = []
        for f in flat(fs):
            if f.op == "ile0":
                self.ineqs.append(_lin(f.args[0]))
            elif f.op == "ieq0":
                c, d = _lin(f.args[0])
                self.ineqs.append((c, d))
                self.ineqs.append((-c, {m: -k for m, k in d.items()}))
            else:
                self.others.append(f)
        self.up = {}
        for (c, d) in self.ineqs:
            for m, k in d.items():
                self.up.setdefault((m, k > 0), []).append((c, d))
        self._key = frozenset(flat(fs))

    def extend(self, *more):
        more = [m for m in more if m is not TRUE]
        if not more:
            return self
        return Facts(self.fs + tuple(more))


def _fast_le0(F, c, d, depth=7, seen=()):
    """prove c + d <= 0 by substituting upper bounds (Farkas search)"""
    d = {m: k for m, k in d.items() if k}
    if not d:
        return c <= 0
    if depth == 0:
        return False
    # pick the monomial with fewest candidates
    best = None
    for m, k in d.items():
        cand = F.up.get((m, k > 0), ())
        if not cand:
            return False
        if best is None or len(cand) < len(best[2]):
            best = (m, k, cand)
    m, k, cand = best
    for (qc, qd) in cand:
        a = qd[m]
        # p - lam*q  with lam=k/a >0 must be <=0 ; scale by |a|
        s = abs(a)
        lam = abs(k)
        nd = {mm: kk * s for mm, kk in d.items()}
        for mm, kk in qd.items():
            nd[mm] = nd.get(mm, 0) - lam * kk
        nc = c * s - lam * qc
        key = (nc, frozenset((x, y) for x, y in nd.items() if y))
        if key in seen:
            continue
        if _fast_le0(F, nc, nd, depth - 1, seen + (key,)):
            return True
    return False


_z = {}


def z3int(t):
    r = _z.get(t)
    if r is not None:
        return r
    if t.op == "ip":
        c, items = t.args
        s = z3.IntVal(c)
        for m, k in items:
            x = z3.IntVal(k)
            for a in m:
                x = x * z3int(a)
            s = s + x
        r = s
    elif t.op == "ite":
        r = z3.If(z3bool(t.args[0]), z3int(t.args[1]), z3int(t.args[2]))
    elif t.op == "app" and t.args[0] == "idiv":
        a, b = map(z3int, t.args[1])
        q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        r = q
    elif t.op == "app" and t.args[0] == "imod":
        a, b = map(z3int, t.args[1])
        q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        r = a - b * q
    else:
        r = z3.Int("a%d" % t.id)
    _z[t] = r
    return r


def z3bool(t):
    if t is TRUE:
        return z3.BoolVal(True)
    if t is FALSE:
        return z3.BoolVal(False)
    op = t.op
    if op == "ile0":
        return z3int(t.args[0]) <= 0
    if op == "ieq0":
        return z3int(t.args[0]) == 0
    if op == "not":
        return z3.Not(z3bool(t.args[0]))
    if op == "and":
        return z3.And(*[z3bool(x) for x in t.args])
    if op == "or":
        return z3.Or(*[z3bool(x) for x in t.args])
    return z3.Bool("b%d" % t.id)


def prove(F, goal, usez3=True):
    """True iff facts entail goal (proved)."""
    if goal is TRUE:
        return True
    if goal.op == "and":
        return all(prove(F, g, usez3) for g in goal.args)
    key = (F._key, goal)
    r = _cache.get(key)
    if r is not None:
        return r
    if goal in F._key:
        _cache[key] = True
        return True
    r = False
    if goal.op == "ile0":
        c, d = _lin(goal.args[0])
        if _fast_le0(F, c, d):
            r = True
    elif goal.op == "ieq0":
        c, d = _lin(goal.args[0])
        if _fast_le0(F, c, d) and _fast_le0(F, -c, {m: -k for m, k in d.items()}):
            r = True
    elif goal.op == "not" and goal.args[0].op == "ieq0":
        c, d = _lin(goal.args[0].args[0])
        if _fast_le0(F, c + 1, d) or _fast_le0(F, 1 - c, {m: -k for m, k in d.items()}):
            r = True
    if r:
        STATS["fast"] += 1
        _cache[key] = True
        return True
    if goal is FALSE and not F.ineqs:
        return False
    if usez3 and _worth(F, goal):
        r = z3prove(F, goal)
    _cache[key] = r
    return r


def _worth(F, goal):
    """is z3 likely to say more than the (complete for boxes) fast path?"""
    if goal.op in ("rlt", "rle", "req"):
        return False
    if goal.op == "not" and goal.args[0].op in ("rlt", "rle", "req"):
        return False
    if goal.op == "app":
        return False
    return True


def z3prove(F, goal):
    import time
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 3000)
    for f in flat(F.fs):
        if f.op in ("rlt", "rle", "req") or (f.op == "not" and f.args[0].op in ("rlt", "rle", "req")):
            continue
        s.add(z3bool(f))
    s.add(z3.Not(z3bool(goal)))
    r = s.check() == z3.unsat
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t0
    return r


def consistent(F):
    """are the facts satisfiable (vacuity guard)?"""
    s = z3.Solver()
    s.set("timeout", 10000)
    for f in flat(F.fs):
        s.add(z3bool(f))
    return s.check()
