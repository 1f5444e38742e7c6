"""Polynomial / rational normal form of real terms (exact rational arithmetic).

A polynomial is a dict monomial -> Fraction; a monomial is a sorted tuple of (atom T, exponent).
Negative exponents stand for division by an atom (obligation 'denominator nonzero' is a precondition
of the C expression itself).  sqrt(x)^2 is rewritten to x."""
from fractions import Fraction
from .terms import *

ONE = ()


class TooBig(Exception):
    pass


def padd(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None:
            r[m] = c * k
        else:
            x = x + c * k
            if x:
                r[m] = x
            else:
                del r[m]
    return r


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def patom(t):
    return {((t, 1),): Fraction(1)}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] is y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0].id < y[0].id:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def pmul(a, b, limit=400000):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > limit:
        raise TooBig("%d x %d" % (len(a), len(b)))
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            x = r.get(m)
            if x is None:
                r[m] = c1 * c2
            else:
                x += c1 * c2
                if x:
                    r[m] = x
                else:
                    del r[m]
    return r


def pscale(a, c):
    return {m: k * c for m, k in a.items()} if c else {}


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


_pt = {}


def pkey(p):
    return tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))


def pterm(p):
    """canonical T for a polynomial (op 'poly')"""
    if not p:
        return R0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE:
            return rconst(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", (pkey(p),), "r")


def pdivexact(a, b):
    """exact quotient a/b of Laurent polynomials over the same atoms, or None"""
    if not a:
        return {}
    key = lambda m: tuple((x.id, e) for x, e in m)
    atoms = sorted({x for m in list(a) + list(b) for x, e in m}, key=lambda x: x.id)
    ix = {x: n for n, x in enumerate(atoms)}
    n = len(atoms)

    def vec(p):
        out = {}
        for m, c in p.items():
            v = [0] * n
            for x, e in m:
                v[ix[x]] = e
            out[tuple(v)] = c
        return out
    A, B = vec(a), vec(b)
    # quick test: for every atom, degree span of a must be >= that of b
    for i in range(n):
        sa = max(v[i] for v in A) - min(v[i] for v in A)
        sb = max(v[i] for v in B) - min(v[i] for v in B)
        if sa < sb:
            return None
    lb = max(B)
    cb = B[lb]
    lo = tuple(min(v[i] for v in A) - min(v[i] for v in B) for i in range(n))
    Q = {}
    for _ in range(4 * len(A) + 8):
        if not A:
            out = {}
            for v, c in Q.items():
                out[tuple((atoms[i], e) for i, e in enumerate(v) if e)] = c
            return out
        la = max(A)
        q = tuple(x - y for x, y in zip(la, lb))
        if any(x < y for x, y in zip(q, lo)):
            return None
        c = A[la] / cb
        Q[q] = c
        for v, cc in B.items():
            w = tuple(x + y for x, y in zip(q, v))
            z = A.get(w, 0) - c * cc
            if z:
                A[w] = z
            else:
                A.pop(w, None)
    return None


def content(p):
    """monomial gcd of a polynomial (min exponent of each atom over all terms)"""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e:
                g[a] = e
            else:
                del g[a]
        for a, e in d.items():
            if e < 0 and a not in g:
                g[a] = e
    return tuple(sorted(g.items(), key=lambda x: x[0].id))


class Norm:
    """normaliser; `unf(t)` decides for inst terms: return expansion term or None to keep opaque"""

    ratdiv = False

    def __init__(self, unf=None, sub=None, facts=(), fold_app=None, F=None):
        self.F = F                   # integer facts used to decide index conditions
        self.memo = {}
        self.bmemo = {}
        self.unf = unf
        self.sub = sub or {}         # T -> T replacement of leaves, applied first
        self.fold_app = fold_app
        self.facts = facts
        self.sqrtarg = {}            # sqrt atom -> polynomial
        self.invarg = {}             # inv atom -> polynomial
        self.assume = {}             # bool -> TRUE/FALSE for case analysis

    # -- reals
    def norm(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative-ish: recursion depth guarded by caller's recursion limit
        r = self._norm(t)
        self.memo[t] = r
        return r

    def _norm(self, t):
        if t in self.sub:
            s = self.sub[t]
            if s is not t:
                return self.norm(s)
        op = t.op
        if op == "rc":
            return pconst(t.args[0])
        if op == "rs":
            return patom(t)
        if op == "+":
            return padd(self.norm(t.args[0]), self.norm(t.args[1]))
        if op == "neg":
            return pscale(self.norm(t.args[0]), -1)
        if op == "*":
            return self.red(pmul(self.norm(t.args[0]), self.norm(t.args[1])))
        if op == "/":
            a, b = self.norm(t.args[0]), self.norm(t.args[1])
            if self.ratdiv and 1 < len(b) and 1 <= len(a) <= 4000:
                q = pdivexact(a, b)
                if q is not None:
                    return self.red(q)
            return self.red(pmul(a, self.inv(b)))
        if op == "poly":
            r = {}
            for m, c in t.args[0]:
                x = pconst(c)
                for a, e in m:
                    q = self.norm(a)
                    if e < 0:
                        q = self.inv(q)
                        e = -e
                    for _ in range(e):
                        x = self.red(pmul(x, q))
                r = padd(r, x)
            return r
        if op == "i2r":
            return self.i2r(t.args[0])
        if op == "sel0":
            n = self._leaf(base_sel(t.args[0], [self.inorm(a) for a in t.args[1]], "r"))
            return n
        if op == "inst":
            if self.unf is not None:
                e = self.unf(t)
                if e is not None:
                    return self.norm(e)
            return self._leaf(inst(t.args[0], [self.inorm(a) for a in t.args[1]]))
        if op == "app":
            return self.app(t)
        if op == "ite":
            c = self.bnorm(t.args[0])
            if c is TRUE:
                return self.norm(t.args[1])
            if c is FALSE:
                return self.norm(t.args[2])
            a = self.norm(t.args[1])
            b = self.norm(t.args[2])
            if a == b:
                return a
            return self.mkite(c, a, b)
        if op == "fold":
            kind, d, lo, hi, act, init = t.args
            i = self.norm(init)
            lo, hi = self.inorm(lo), self.inorm(hi)
            act = tuple(self.inorm(x) for x in act)
            if kind == "sum":
                return padd(i, self._leaf(fold(kind, d, lo, hi, act, R0)))
            return self._leaf(fold(kind, d, lo, hi, act, pterm(i)))
        if op == "inv":
            return self.inv(self.norm(t.args[0]))
        raise NotImplementedError("norm " + op)

    def _leaf(self, t):
        if t in self.sub and self.sub[t] is not t:
            return self.norm(self.sub[t])
        return patom(t)

    def mkite(self, c, a, b):
        # pull out the common part: ite(c,a,b) = b + ite(c,a-b,0)
        return patom(mk("ite", (c, pterm(a), pterm(b)), "r"))

    def i2r(self, t):
        r = {}
        c, items = iparts(self.inorm(t))
        r = pconst(c)
        for m, k in items:
            x = pconst(k)
            for a in m:
                x = pmul(x, patom(mk("i2r", (iatom(a),), "r")))
            r = padd(r, x)
        return r

    def inorm(self, t):
        if t.op == "ip" and all(len(m) == 1 and m[0].op in ("isym", "var") for m, c in t.args[1]) and not self.sub:
            return t
        return rebuild(t, self._iatom) if t.op == "ip" else self._iatom(t)

    def _iatom(self, a):
        if a in self.sub:
            return self.sub[a]
        if a.op in ("isym", "var"):
            return a
        if a.op == "ite":
            c = self.bnorm(a.args[0])
            if c is TRUE:
                return self.inorm(a.args[1])
            if c is FALSE:
                return self.inorm(a.args[2])
            return ite(c, self.inorm(a.args[1]), self.inorm(a.args[2]))
        if a.op == "inst" and self.unf is not None:
            e = self.unf(a)
            if e is not None:
                return self.inorm(e)
            return a
        if a.op == "app":
            return app(a.args[0], [self.inorm(x) if x.sort == "i" else pterm(self.norm(x)) for x in a.args[1]], "i")
        if a.op == "sel0":
            return base_sel(a.args[0], [self.inorm(x) for x in a.args[1]], "i")
        return a

    def app(self, t):
        name = t.args[0]
        args = []
        for x in t.args[1]:
            if x.sort == "r":
                args.append(pterm(self.norm(x)))
            elif x.sort == "i":
                args.append(self.inorm(x))
            else:
                args.append(self.bnorm(x))
        if self.fold_app is not None:
            r = self.fold_app(self, name, args, t)
            if r is not None:
                return r
        if name == "sqrt":
            return self.sqrt(args[0])
        if name == "pow" and args[1].op == "rc" and args[1].args[0].denominator == 1 and abs(args[1].args[0]) <= 8:
            n = int(args[1].args[0])
            p = self.norm(args[0])
            if n < 0:
                p, n = self.inv(p), -n
            return self.red(ppow(p, n))
        return self._leaf(app(name, args))

    def sqrt(self, a):
        v = rval(a)
        if v is not None and v >= 0:
            from math import isqrt
            n, d = v.numerator, v.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return pconst(Fraction(isqrt(n), isqrt(d)))
        p = self.norm(a)
        at = app("sqrt", [pterm(p)])
        if at in self.sub and self.sub[at] is not at:
            return self.norm(self.sub[at])
        self.sqrtarg[at] = p
        return patom(at)

    def inv(self, p):
        if not p:
            return patom(mk("inv", (R0,), "r"))
        if len(p) == 1:
            (m, c), = p.items()
            return self.red({tuple((a, -e) for a, e in m): 1 / c})
        if self.ratdiv:
            g = content(p)
            if g:
                gi = tuple((a, -e) for a, e in g)
                q = {mmul(m, gi): c for m, c in p.items()}
                return self.red(pmul({gi: Fraction(1)}, self.inv(self.red(q))))
        # normalise leading coefficient
        key = pkey(p)
        c = key[0][1]
        q = pscale(p, 1 / c)
        at = mk("inv", (pterm(q),), "r")
        self.invarg[at] = q
        return {((at, 1),): 1 / c}

    def red(self, p):
        """sqrt(x)^2 -> x ; sqrt(x)^-1 -> sqrt(x)/x ; inv(inv)"""
        if not self.sqrtarg and not self.invarg:
            return p
        todo = None
        for m in p:
            for a, e in m:
                if (a in self.sqrtarg and (e >= 2 or e < 0)) or (a in self.invarg and e < 0):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        r = {}
        for m, c in p.items():
            x = pconst(c)
            base = []
            for a, e in m:
                if a in self.sqrtarg and (e >= 2 or e < 0):
                    if e >= 0:
                        k, rem = divmod(e, 2)
                        f = ppow(self.sqrtarg[a], k)
                    else:
                        k, rem = divmod(-e, 2)
                        k += rem
                        iv = self.inv(self.sqrtarg[a])
                        f = pconst(1)
                        for _ in range(k):
                            f = self.red(pmul(f, iv))
                    x = pmul(x, f)
                    if rem:
                        base.append((a, 1))
                elif a in self.invarg and e < 0:
                    x = pmul(x, ppow(self.invarg[a], -e))
                else:
                    base.append((a, e))
            x = pmul(x, {tuple(base): Fraction(1)})
            r = padd(r, x)
        return self.red(r)

    def iszero(self, p, limit=60):
        """rational identity p==0: clear denominators"""
        for _ in range(limit):
            if not p:
                return True
            # pick an inv atom
            at = None
            best = -1
            for m in p:
                for a, e in m:
                    if a.op == "inv" and a in self.invarg and e > 0:
                        if a.id > best:
                            best = a.id
                            at = a
            if at is None:
                return False
            emax = max(e for m in p for a, e in m if a is at)
            q = self.invarg[at]
            r = {}
            pw = [pconst(1)]
            for _ in range(emax):
                pw.append(pmul(pw[-1], q))
            groups = {}
            for m, c in p.items():
                e = 0
                rest = []
                for a, x in m:
                    if a is at:
                        e = x
                    else:
                        rest.append((a, x))
                groups.setdefault(emax - e, {})
                g = groups[emax - e]
                k = tuple(rest)
                g[k] = g.get(k, 0) + c
            for e, g in groups.items():
                g = {m: c for m, c in g.items() if c}
                r = padd(r, self.red(pmul(g, pw[e])))
            p = self.red(r)
        return not p

    # -- booleans
    def bnorm(self, t):
        r = self.bmemo.get(t)
        if r is not None:
            return r
        r = self._bnorm(t)
        self.bmemo[t] = r
        return r

    def _bnorm(self, t):
        if t in self.assume:
            return self.assume[t]
        op = t.op
        if op in ("true", "false"):
            return t
        if op == "and":
            r = band(*[self.bnorm(x) for x in t.args])
        elif op == "or":
            r = bor(*[self.bnorm(x) for x in t.args])
        elif op == "not":
            r = bnot(self.bnorm(t.args[0]))
        elif op in ("rlt", "rle", "req"):
            p = padd(self.norm(t.args[0]), self.norm(t.args[1]), -1)
            r = self.cmp0({"rlt": "<", "rle": "<=", "req": "=="}[op], p)
        elif op == "ile0":
            r = self.bint(ile0(self.inorm(t.args[0])))
        elif op == "ieq0":
            r = self.bint(ieq(self.inorm(t.args[0]), I0))
        else:
            r = t
        if r in self.assume:
            return self.assume[r]
        return r

    def bint(self, r):
        if self.F is None or r.op in ("true", "false"):
            return r
        from .intprove import prove
        if prove(self.F, r):
            return TRUE
        if prove(self.F, bnot(r)):
            return FALSE
        return r

    def cmp0(self, op, p):
        """p op 0, canonical"""
        if not p:
            return FALSE if op == "<" else TRUE
        if len(p) == 1 and ONE in p:
            c = p[ONE]
            return TRUE if {"<": c < 0, "<=": c <= 0, "==": c == 0}[op] else FALSE
        key = pkey(p)
        c = abs(key[0][1])
        if c != 1:
            p = pscale(p, 1 / c)
        if op == "==" and pkey(p)[0][1] < 0:
            p = pscale(p, -1)
        t = rcmp(op, pterm(p), R0)
        return t


def showp(p, n=12):
    out = []
    for m, c in list(p.items())[:n]:
        out.append("%s%s" % (c, "".join("*%s%s" % (show(a, 3), "" if e == 1 else "^%d" % e) for a, e in m)))
    if len(p) > n:
        out.append("... (%d terms)" % len(p))
    return " + ".join(out) if out else "0"
