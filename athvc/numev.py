"""exact-ish numeric evaluation of terms (mpmath): used to look for a concrete failing input of an
obligation before (and instead of) calling it failed."""
import random, hashlib
import mpmath
from mpmath import mpf
from .terms import *

mpmath.mp.dps = 40


class Undef(Exception):
    pass


FUNS = {"sqrt": mpmath.sqrt, "fabs": abs, "exp": mpmath.exp, "log": mpmath.log, "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan,
        "cbrt": mpmath.cbrt, "floor": mpmath.floor, "ceil": mpmath.ceil, "atan2": mpmath.atan2, "pow": mpmath.power, "acos": mpmath.acos,
        "asin": mpmath.asin, "atan": mpmath.atan, "log10": mpmath.log10}


class Ev:
    """env: term -> value (rs / isym / sel0 atoms); missing atoms are drawn by `draw`"""

    def __init__(self, env, draw, maxn=200000, fun=None):
        self.env = dict(env)
        self.draw = draw
        self.memo = {}
        self.uf = {}
        self.used = False
        self.n = 0
        self.maxn = maxn
        self.fun = fun or {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.n += 1
            if self.n > self.maxn:
                raise Undef("too large")
            r = self.go(t)
            if not t.fv:
                self.memo[t] = r
        return r

    def go(self, t):
        op, a = t.op, t.args
        if op == "rc":
            return mpf(a[0].numerator) / a[0].denominator
        if op == "ip":
            s = a[0]
            for m, k in a[1]:
                x = k
                for y in m:
                    x *= self(y)
                s += x
            return s
        if op in ("rs", "isym", "var"):
            if t not in self.env:
                self.env[t] = self.draw(t)
            return self.env[t]
        if op == "+":
            return self(a[0]) + self(a[1])
        if op == "*":
            return self(a[0]) * self(a[1])
        if op == "neg":
            return -self(a[0])
        if op == "/":
            d = self(a[1])
            if d == 0:
                raise Undef("division by zero")
            return self(a[0]) / d
        if op == "inv":
            d = self(a[0])
            if d == 0:
                raise Undef("division by zero")
            return 1 / d
        if op == "i2r":
            return mpf(self(a[0]))
        if op == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ile0":
            return self(a[0]) <= 0
        if op == "ieq0":
            return self(a[0]) == 0
        if op == "rlt":
            return self(a[0]) < self(a[1])
        if op == "rle":
            return self(a[0]) <= self(a[1])
        if op == "req":
            return self(a[0]) == self(a[1])
        if op == "not":
            return not self(a[0])
        if op == "and":
            return all(self(x) for x in a)
        if op == "or":
            return any(self(x) for x in a)
        if op == "poly":
            s = mpf(0)
            for m, c in a[0]:
                x = mpf(Fraction(c).numerator) / Fraction(c).denominator
                for y, e in m:
                    v = self(y)
                    if e < 0 and v == 0:
                        raise Undef("division by zero")
                    x *= v ** e
                s += x
            return s
        if op == "app":
            vs = [self(x) for x in a[1]]
            if a[0] in self.fun:
                return self.fun[a[0]](*vs)
            if a[0] in FUNS:
                if a[0] in ("sqrt",) and vs[0] < 0:
                    raise Undef("sqrt of negative")
                if a[0] == "log" and vs[0] <= 0:
                    raise Undef("log")
                if a[0] == "pow" and vs[0] < 0 and vs[1] != int(vs[1]):
                    raise Undef("pow")
                r = FUNS[a[0]](*vs)
                if isinstance(r, mpmath.mpc):
                    raise Undef("complex")
                return r
            return self.ufn(a[0], vs, t.sort)
        if op == "sel0":
            vs = tuple(int(self(x)) for x in a[1])
            k = ("sel0", a[0], vs)
            if k not in self.env:
                self.env[k] = self.draw(t)
            return self.env[k]
        if op == "inst":
            u = unfold(t)
            if u is None:
                vs = tuple(self(x) for x in a[1])
                return self.ufn(a[0], vs, t.sort)
            return self(u)
        if op == "fold":
            kind, d, lo, hi, act, init = a
            lo, hi = int(self(lo)), int(self(hi))
            r = self(init)
            for v in range(lo, hi + 1):
                x = self(subst(d.body, dict(zip(d.formals, (iconst(v),) + tuple(act)))))
                r = r + x if kind == "sum" else max(r, x) if kind == "max" else min(r, x)
            return r
        raise Undef(op)

    def ufn(self, name, vs, sort):
        self.used = True
        k = repr(name) + "|" + ",".join(mpmath.nstr(mpf(v), 25) for v in vs)
        if sort == "b":
            return hashlib.sha1(k.encode()).digest()[0] & 1 == 0
        h = int(hashlib.sha1(k.encode()).hexdigest()[:12], 16)
        if sort == "i":
            return h % 7
        return mpf(h) / 2 ** 47 - 1


def drawer(rng, style):
    def d(t):
        if t.sort == "i":
            return rng.randint(0, 9)
        if style == 0:
            return mpf(rng.randint(-300, 300)) / 100
        if style == 1:
            return mpf(rng.randint(1, 300)) / 100
        if style == 2:
            return mpf(rng.randint(-3, 3))
        return mpf(rng.choice([-1, 1])) * mpf(10) ** rng.randint(-4, 4) * rng.randint(1, 9)
    return d


def falsify(expr, pre=(), tries=240, seed=1, env=None, fun=None, nonzero=True, tlimit=20, uf_ok=False):
    """a concrete input with expr != 0 (nonzero) / expr false (boolean) under pre, or None.
    -> (env text, value) | None"""
    import time
    t0 = time.time()
    rng = random.Random(seed)
    hit = 0
    for n in range(tries):
        if time.time() - t0 > tlimit:
            break
        style = n % 4 if n >= 8 else (1 if n % 2 else 0)
        e = Ev(env or {}, drawer(rng, style), fun=fun)
        try:
            if not all(e(c) for c in pre):
                continue
            v = e(expr)
        except (Undef, ZeroDivisionError, ValueError, OverflowError):
            continue
        if e.used and not uf_ok:
            continue                 # value of an abstraction: not a real input
        hit += 1
        if expr.sort == "b":
            if not v:
                return (_show(e), "false")
            continue
        scale = max([abs(mpf(x)) for x in e.memo.values() if not isinstance(x, bool)] + [1])
        if abs(v) > mpf(10) ** (-18) * min(scale, mpf(10) ** 10) and abs(v) > mpf(10) ** -14:
            return (_show(e), mpmath.nstr(v, 12))
    return None


def _show(e):
    out = []
    for k, v in e.env.items():
        nm = k.args[0] if isinstance(k, T) else "%s%s" % (k[1], list(k[2]))
        out.append("%s=%s" % (nm, mpmath.nstr(mpf(v), 8)))
    return ", ".join(out)
