"""relational contracts on the integrators: canonical forms of the stored values as functions of the initial state

Every stored value is reduced to a canonical form over leaves  field@(dk,dj,di)  (initial values relative to a generic
active cell), with lr_states() and fluxes() replaced by their contracts (functions of the values they receive).
The reduction is exact over the reals: sums and products are commutative, products of sums are not expanded."""
from fractions import Fraction
from .integ import *
from .spec import havoc_array


def lr_functional(order=2):
    """Wl[i] = L(W[i-1-order..i-1+order], Bxc[i-1], dt, dx),  Wr[i] = R(W[i-order..i+order], Bxc[i], dt, dx)   il<=i<=iu+1"""
    def c(eng, st, args):
        (pG, _), (W, wt), (Bx, bt), (dt, _), (dx, _), (il, _), (iu, _), (Wl, tl), (Wr, tr) = args[:9]
        ty = wt.a
        lv = eng.P.leaves(ty)
        mhd = isinstance(Bx, Ptr)
        v = newvar("f")
        dom = (ile(il, iatom(v)), ile(iatom(v), iadd(iu, I1)))
        save = eng.scopevars
        eng.scopevars = save + (v,)
        st2 = State(st.mem, st.pc + dom)

        def rd(p, off, suf, lt):
            key, idx = eng.loc(p.obj, p.path + (iadd(p.off, off),) + suf)
            return eng.lookup(st2, key, lt, idx)
        outs = []
        try:
            for nm, p, o in (("lrL", Wl, -1), ("lrR", Wr, 0)):
                a = []
                for s in range(o - order, o + order + 1):
                    for suf, lt in lv:
                        a.append(rd(W, iadd(iatom(v), iconst(s)), suf, lt))
                a.append(rd(Bx, iadd(iatom(v), iconst(o)), (), REAL) if "MHD" in eng.cfgname else R0)
                a += [dt, dx]
                for suf, lt in lv:
                    outs.append((p, suf, lt, app("%s.%s" % (nm, ".".join(suf)), a)))
        finally:
            eng.scopevars = save
        for p, suf, lt, val in outs:
            key, idx = eng.loc(p.obj, p.path + (iadd(p.off, iatom(v)),) + suf)
            prev = st.mem.get(key)
            if prev is None:
                prev = eng.basenode(key, lt)
            # contents outside the computed range are not specified
            prev = Base(fresh("lr?" + p.obj), sortof(lt), eng.scopevars)
            d = Def("lr", tuple(save) + (v,), val, val.sort)
            st.mem[key] = LoopStore(prev, (v,), dom, idx, d, save)
        return None
    return c


class Canon:
    """canonical forms; the atom table is shared by all evaluations made with one instance"""

    def __init__(self, F, order=2, cells=None, exch=None, rules=()):
        self.F = F
        self.tab = {}
        self.names = {}
        self.exch = exch or {}
        self.rules = rules
        self.order = order
        self.known = {}      # polynomial -> its sign (assumptions)
        self.ties = True     # False: states where a compared difference is exactly zero are left out

    # -- atoms and polynomials: poly = frozenset of (monomial, coeff); monomial = tuple of (atom, exp)
    def atom(self, key):
        i = self.tab.get(key)
        if i is None:
            i = len(self.tab)
            self.tab[key] = i
            self.names[i] = key
        return i

    def const(self, c):
        return frozenset({((), Fraction(c))}) if c else frozenset()

    def of(self, a):
        return frozenset({(((a, 1),), Fraction(1))})

    def add(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        d = dict(p)
        for m, c in q:
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return frozenset(d.items())

    def scale(self, p, c):
        return frozenset((m, k * c) for m, k in p) if c else frozenset()

    def mmul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
            if not d[a]:
                del d[a]
        return tuple(sorted(d.items()))

    def mono(self, p):
        """p as (coeff, monomial), introducing an abbreviation atom for sums"""
        if not p:
            return None
        if len(p) == 1:
            ((m, c),) = p
            return c, m
        # common monomial factor (an atom absent from a term has exponent 0 there)
        ds = [dict(m) for m, _ in p]
        com = {a: min(d.get(a, 0) for d in ds) for a in {a for d in ds for a in d}}
        com = tuple(sorted((a, e) for a, e in com.items() if e))
        if com:
            inv = tuple((a, -e) for a, e in com)
            p = frozenset((self.mmul(m, inv), c) for m, c in p)
        lead = min(p)[1]
        q = self.scale(p, 1 / lead)
        return lead, self.mmul(com, ((self.atom(("sum", q)), 1),))

    EXPAND = 14

    def mul(self, p, q):
        if not p or not q:
            return frozenset()
        if len(p) > len(q):
            p, q = q, p
        if len(p) == 1 and len(q) <= self.EXPAND:
            ((m1, c1),) = p
            d = {}
            for m, c in q:
                k = self.mmul(m1, m)
                d[k] = d.get(k, 0) + c * c1
            return frozenset((m, c) for m, c in d.items() if c)
        c1, m1 = self.mono(p)
        c2, m2 = self.mono(q)
        return frozenset({(self.mmul(m1, m2), c1 * c2)})

    def inv(self, p):
        x = self.mono(p)
        if x is None:
            return self.of(self.atom(("inv0",)))
        c, m = x
        return frozenset({(tuple((a, -e) for a, e in m), 1 / c)})

    # -- decisions: ordered ternary diagrams over the sign of real differences; leaves are True/False or polynomials
    def node(self, d, n, z, p):
        if n == z == p:
            return n
        return ("sgn", d, n, z, p)

    def signnode(self, d, n, z, p):
        """diagram testing the sign of polynomial d"""
        if not d:
            return z
        if len(d) == 1 and min(d)[0] == ():
            return p if min(d)[1] > 0 else n
        if self.known:
            for q, sg in ((d, 1), (self.scale(d, -1), -1)):
                if q in self.known:
                    return p if self.known[q] * sg > 0 else n
        lead = min(d)[1]
        if lead < 0:
            n, p = p, n
        if not self.ties:
            z = p
        q = self.scale(d, 1 / lead)
        i = self.atom(("cmp", q))
        return self.node(i, n, z, p)

    @staticmethod
    def isnode(x):
        return type(x) is tuple and len(x) == 5 and x[0] == "sgn"

    def mapleaf(self, x, f, memo):
        if not self.isnode(x):
            return f(x)
        r = memo.get(x)
        if r is None:
            r = memo[x] = ("sgn", x[1]) + tuple(self.mapleaf(x[k], f, memo) for k in (2, 3, 4))
        return r

    def lift(self, p):
        """polynomial that is a multiple of one case atom -> its diagram"""
        if type(p) is frozenset and len(p) == 1:
            ((m, c),) = p
            if len(m) == 1 and m[0][1] == 1:
                k = self.names[m[0][0]]
                if k[0] == "case":
                    return k[1] if c == 1 else self.mapleaf(k[1], lambda q: self.scale(q, c), {})
        return p

    def firstlead(self, x):
        while True:
            if not self.isnode(x):
                return min(x)[1] if x else None
            for k in (2, 3, 4):
                c = self.firstlead(x[k])
                if c is not None:
                    return c
            return None

    def unlift(self, x):
        if not self.isnode(x):
            return x
        c = self.firstlead(x)
        if c is None:
            return frozenset()
        if c != 1:
            x = self.mapleaf(x, lambda q: self.scale(q, 1 / c), {})
        return self.scale(self.of(self.atom(("case", x))), c)

    def top(self, *xs):
        ds = [x[1] for x in xs if self.isnode(x)]
        return min(ds) if ds else None

    def cof(self, x, d, k):
        return x[2 + k] if self.isnode(x) and x[1] == d else x

    def itebdd(self, c, x, y, memo=None):
        if c is True:
            return x
        if c is False:
            return y
        if x == y:
            return x
        memo = {} if memo is None else memo
        key = (c, x, y)
        if key in memo:
            return memo[key]
        d = self.top(c, x, y)
        r = self.node(d, *[self.itebdd(self.cof(c, d, k), self.cof(x, d, k), self.cof(y, d, k), memo) for k in range(3)])
        memo[key] = r
        return r

    def mapleaf2(self, x, f):
        if not self.isnode(x):
            return f(x)
        return self.node(x[1], *[self.mapleaf2(x[k], f) for k in (2, 3, 4)])

    def apply2(self, x, y, f):
        d = self.top(x, y)
        if d is None:
            return f(x, y)
        return self.node(d, *[self.apply2(self.cof(x, d, k), self.cof(y, d, k), f) for k in range(3)])

    # -- evaluation
    def evaluator(self, leaf, sym, hooks=None):
        """leaf(name, idx) -> polynomial; sym(name) -> polynomial; hooks: function name -> rewrite of the argument list"""
        memo = {}
        cmemo = {}
        F = self.F

        def cond(t):
            r = cmemo.get(t)
            if r is None:
                r = cmemo[t] = cond1(t)
            return r

        def cond1(t):
            if t is TRUE or t is FALSE:
                return t is TRUE
            if t.op in ("ile0", "ieq0"):
                if prove(F, t):
                    return True
                if prove(F, bnot(t)):
                    return False
                d = ints(t.args[0])
                if d is not None:
                    return self.mapleaf2(d, (lambda n: n <= 0) if t.op == "ile0" else (lambda n: n == 0))
                raise Unsupported("index condition not decided: " + show(t))
            if t.op in ("rlt", "rle", "req"):
                d = self.add(val(t.args[0]), self.scale(val(t.args[1]), -1))
                return self.signnode(d, *{"rlt": (True, False, False), "rle": (True, True, False), "req": (False, True, False)}[t.op])
            if t.op == "not":
                return self.itebdd(cond(t.args[0]), False, True)
            if t.op in ("and", "or"):
                r = t.op == "and"
                for a in t.args:
                    c = cond(a)
                    r = self.itebdd(r, c, False) if t.op == "and" else self.itebdd(r, True, c)
                return r
            raise Unsupported("condition " + t.op)

        def ints(t):
            """integer term built from case distinctions on reals -> diagram with integer leaves"""
            if t.op == "ip":
                acc = t.args[0]
                for m, c in t.args[1]:
                    if len(m) != 1:
                        return None
                    x = ints(m[0])
                    if x is None:
                        return None
                    acc = self.apply2(acc, x, lambda p, q: p + c * q)
                return acc
            if t.op == "ite":
                c, x, y = cond(t.args[0]), ints(t.args[1]), ints(t.args[2])
                if x is None or y is None:
                    return None
                return self.itebdd(c, x, y)
            if t.op == "inst":
                u = unfold(t)
                return None if u is None else ints(u)
            return None

        def val(t):
            r = memo.get(t)
            if r is None:
                r = self._val(t, val, cond, leaf, sym, hooks or {})
                memo[t] = r
            return r
        return val

    def _val(self, t, val, cond, leaf, sym, hooks):
        op = t.op
        a = t.args
        if op == "rc":
            return self.const(a[0])
        if op == "rs":
            return sym(a[0])
        if op == "+":
            return self.add(val(a[0]), val(a[1]))
        if op == "neg":
            return self.scale(val(a[0]), -1)
        if op == "*":
            return self.mul(val(a[0]), val(a[1]))
        if op == "/":
            return self.mul(val(a[0]), self.inv(val(a[1])))
        if op == "sel0":
            return leaf(a[0], a[1])
        if op == "inst":
            u = unfold(t)
            if u is None:
                raise Unsupported("unspecified value " + a[0].name)
            return val(u)
        if op == "ite":
            c = cond(a[0])
            if c is True:
                return val(a[1])
            if c is False:
                return val(a[2])
            return self.unlift(self.itebdd(c, self.lift(val(a[1])), self.lift(val(a[2]))))
        if op == "app":
            args = tuple(val(x) for x in a[1])
            if a[0] in hooks:
                args = hooks[a[0]](args)
                if isinstance(args, frozenset):
                    return args
            return self.mkapp(a[0], args)
        raise Unsupported("operator " + op)

    def mkapp(self, name, args):
        fam, _, comp = name.partition(".")
        for r in self.rules:
            x = r(self, fam, comp, args)
            if x is not None:
                return x
        g = self.exch.get(fam)
        if g is None:
            return self.of(self.atom(("app", name, args)))
        gc = self.__dict__.setdefault("_gc", {})
        bi = gc.get((fam, args))
        if bi is None:
            best = None
            for i, f in enumerate(g):
                n2, a2, sg = f(self, fam, comp, args)
                k = (n2.partition(".")[0], self._key(a2))
                if best is None or k < best[0]:
                    best = (k, i)
            bi = gc[(fam, args)] = best[1]
        n2, a2, sg = g[bi](self, fam, comp, args)
        return self.scale(self.of(self.atom(("app", n2, a2))), sg)

    def _key(self, args):
        ks = getattr(self, "_ik", None)
        if ks is None:
            ks = self._ik = {}
        out = []
        for p in args:
            i = ks.get(p)
            if i is None:
                i = ks[p] = len(ks)
            out.append(i)
        return out

    def show(self, p, depth=3):
        def at(a, d):
            k = self.names[a]
            if k[0] == "leaf":
                return "%s@%s" % (k[1].replace("G.", "").replace("[]", ""), ",".join(map(str, k[2])))
            if k[0] == "sym":
                return str(k[1])
            if d == 0:
                return k[0] + "..."
            if k[0] == "app":
                return k[1] + "(...)"
            if k[0] == "sum":
                return "(" + self.show(k[1], d - 1) + ")"
            return k[0] + "#%d" % a
        s = []
        for m, c in sorted(p)[:8]:
            s.append("%s*%s" % (c, "*".join(at(a, depth) + ("^%d" % e if e != 1 else "") for a, e in m)))
        return " + ".join(s) + (" + ..." if len(p) > 8 else "")


SW = {"My": "Mz", "Mz": "My", "Vy": "Vz", "Vz": "Vy", "By": "Bz", "Bz": "By"}


def symmetries(P, order, mirror=True, exchange=True):
    """contracts proved elsewhere (C05, C07) as argument rewrites: fluxes() and lr_states() commute with the exchange of the
    transverse components and with reflection"""
    U = [s for s, _ in P.leaves(CT("struct", "Cons1D_s"))]
    W = [s for s, _ in P.leaves(CT("struct", "Prim1D_s"))]

    def xpos(lv):
        return [lv.index((SW.get(s[0], s[0]),) + s[1:]) for s in lv]
    xU, xW = xpos(U), xpos(W)
    nU, nW = len(U), len(W)

    FLIP = {"x": ("Mx", "Vx"), "y": ("My", "Vy", "By"), "z": ("Mz", "Vz", "Bz")}

    def negc(C, seg, lv, which):
        names = FLIP[which]
        return tuple(C.scale(x, -1) if s[0] in names else x for x, s in zip(seg, lv))

    def flux(ex, mi, par):
        def f(C, fam, comp, args):
            parts = [(args[:nU], U), (args[nU:2 * nU], U), (args[2 * nU:2 * nU + nW], W), (args[2 * nU + nW:2 * nU + 2 * nW], W)]
            rest = args[2 * nU + 2 * nW:]
            sg = 1
            if ex:
                parts = [(tuple(x[i] for i in (xU if lv is U else xW)), lv) for x, lv in parts]
                c0, _, c1 = comp.partition(".")
                comp = SW.get(c0, c0) + ("." + c1 if c1 else "")
            for w in par:
                parts = [(negc(C, x, lv, w), lv) for x, lv in parts]
                if comp in FLIP[w]:
                    sg = -sg
            if mi:
                ul, ur, wl, wr = [(negc(C, x, lv, "x"), lv) for x, lv in parts]
                parts = [ur, ul, wr, wl]
                rest = (C.scale(rest[0], -1),) + rest[1:]
                if comp != "Mx":
                    sg = -sg
            out = ()
            for x, _ in parts:
                out += x
            return fam + "." + comp, out + rest, sg
        return f

    def lr(ex, mi, par):
        def f(C, fam, comp, args):
            cells = [args[n * nW:(n + 1) * nW] for n in range(2 * order + 1)]
            rest = args[(2 * order + 1) * nW:]
            sg = 1
            if ex:
                cells = [tuple(x[i] for i in xW) for x in cells]
                c0, _, c1 = comp.partition(".")
                comp = SW.get(c0, c0) + ("." + c1 if c1 else "")
            for w in par:
                cells = [negc(C, x, W, w) for x in cells]
                if comp in FLIP[w]:
                    sg = -sg
            if mi:
                cells = [negc(C, x, W, "x") for x in reversed(cells)]
                rest = (C.scale(rest[0], -1),) + rest[1:]
                fam = {"lrL": "lrR", "lrR": "lrL"}[fam]
                if comp == "Vx":
                    sg = -sg
            out = ()
            for x in cells:
                out += x
            return fam + "." + comp, out + rest, sg
        return f
    g = [(e, m, p) for e in ((False, True) if exchange else (False,)) for m in ((False, True) if mirror else (False,))
         for p in (("", "y", "z", "yz") if mirror else ("",))]
    return {"fluxes": [flux(*x) for x in g], "lrL": [lr(*x) for x in g], "lrR": [lr(*x) for x in g]}


def consistency(P, order, mass=False):
    """contracts proved elsewhere: lr_states() of a uniform stencil is that state (C07); the magnetic flux components between
    equal states are the analytic ones (C04)"""
    U = [s for s, _ in P.leaves(CT("struct", "Cons1D_s"))]
    W = [s for s, _ in P.leaves(CT("struct", "Prim1D_s"))]
    nU, nW = len(U), len(W)

    def same(x, y):
        if x == y:
            return True
        return all(type(a) is float and abs(a - b) < 1e-11 * (1 + abs(a)) for a, b in zip(x, y))

    def rule(C, fam, comp, args):
        if fam in ("lrL", "lrR"):
            c0 = args[:nW]
            for n in range(1, 2 * order + 1):
                if not same(args[n * nW:(n + 1) * nW], c0):
                    return None
            return c0[[".".join(s) for s in W].index(comp)]
        if fam == "fluxes" and (comp in ("By", "Bz") or (mass and comp == "d")):
            wl, wr = args[2 * nU:2 * nU + nW], args[2 * nU + nW:2 * nU + 2 * nW]
            if not same(wl, wr) or not same(args[:nU], args[nU:2 * nU]):
                return None
            w = {s[0]: x for s, x in zip(W, wl)}
            if comp == "d":
                return C.mul(w["d"], w["Vx"])
            bx = args[2 * nU + 2 * nW]
            return C.add(C.mul(w["Vx"], w[comp]), C.scale(C.mul(bx, w["V" + comp[1]]), -1))
        return None
    return rule


# -- numerical interpretation (used when the canonical forms differ): fluxes() and lr_states() become concrete functions
#    obeying exactly the contracts assumed above, so a difference is a difference for some functions within the contracts
class NumOps:
    scale = staticmethod(lambda x, c: x * float(c))
    add = staticmethod(lambda x, y: x + y)
    mul = staticmethod(lambda x, y: x * y)


def numeric(C, seed):
    import hashlib
    from math import sin, inf
    hm = {}

    def rnd(*key):
        r = hm.get(key)
        if r is None:
            r = hm[key] = int.from_bytes(hashlib.sha1(repr((seed,) + key).encode()).digest()[:6], "big") / float(1 << 48)
        return r

    def h(name, args):
        return sin(6.28 * rnd(name) + sum((2 * rnd(name, i) - 1) * x for i, x in enumerate(args)))
    memo = {}

    def poly(p):
        s = 0.0
        for m, c in p:
            v = float(c)
            for a, e in m:
                v *= at(a) ** e
            s += v
        return s

    def at(a):
        r = memo.get(a)
        if r is None:
            r = memo[a] = at1(C.names[a])
        return r

    def diag(x):
        while C.isnode(x):
            d = poly(C.names[x[1]][1])
            x = x[2] if d < 0 else x[4] if d > 0 else x[3]
        return poly(x)

    def at1(k):
        if k[0] == "leaf":
            n, off = k[1], k[2]
            r = rnd(n, off)
            last = n.rsplit(".", 1)[-1]
            return 1 + 0.5 * r if last == "d" else 20 + r if last == "E" else 2 * r - 1
        if k[0] == "sym":
            n = str(k[1])
            return 1e-30 if n.endswith(("_MIN", "MIN")) else 0.3 + rnd(n)
        if k[0] == "sum":
            return poly(k[1])
        if k[0] == "case":
            return diag(k[1])
        if k[0] == "app":
            name, args = k[1], [poly(x) for x in k[2]]
            fam, _, comp = name.partition(".")
            for r in C.rules:
                x = r(NumOps, fam, comp, tuple(args))
                if x is not None:
                    return x
            g = C.exch.get(fam)
            if g is None:
                return h(name, args)
            base = {"d": 1.5, "P": 2.0}.get(comp, 0.0) if fam != "fluxes" else 0.0
            s = 0.0
            for f in g:
                n2, a2, sg = f(NumOps, fam, comp, tuple(args))
                s += sg * h(n2, a2)
            return base + s / len(g)
        return 1.0
    return poly


def compare(C, a, b, n=3):
    """'equal' (canonical forms agree), 'sampled' (numerically equal), or the differing values"""
    if a == b:
        return "equal", None
    for s in range(n):
        f = numeric(C, s)
        x, y = f(a), f(b)
        if x != x or y != y:
            return "sampled", None
        if abs(x - y) > 1e-8 * (1 + abs(x) + abs(y)):
            return "differ", (x, y)
    return "sampled", None


DEBUG = False


def pathwise(C, a, b, positive, budget=20.0):
    """equality of two values given as decision diagrams, on every path whose sign conditions are jointly satisfiable
    (linear real arithmetic over monomials; positive(atom key) -> known > 0).  True / None (not decided)"""
    import time
    import z3
    t0 = time.time()
    x, y = C.lift(a), C.lift(b)
    s = z3.Solver()
    s.set("timeout", 400)
    vs = {}

    def mono(m):
        v = vs.get(m)
        if v is None:
            v = vs[m] = z3.Real("m%d" % len(vs))
        return v

    defs = []
    done = set()

    def define(at):
        """value of a case atom as a z3 term"""
        k = C.names[at]
        if k[0] != "case" or at in done:
            return
        done.add(at)

        def dg(x):
            if not C.isnode(x):
                return lin(x)
            c = lin(C.names[x[1]][1])
            n, z, p = (dg(x[k]) for k in (2, 3, 4))
            return z3.If(c < 0, n, z3.If(c > 0, p, z))
        defs.append(mono(((at, 1),)) == dg(k[1]))

    def lin(p):
        for m, c in p:
            for at, e in m:
                define(at)
        t = z3.RealVal(0)
        for m, c in p:
            cc = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            t = t + (cc if not m else cc * mono(m))
        return t
    seen = {}

    def go(x, y, cons):
        if x == y:
            return True
        if time.time() - t0 > budget:
            return None
        d = C.top(x, y)
        if d is None:
            # leaves differ: acceptable only on an impossible path
            fs = []
            for i, sg in cons:
                p = lin(C.names[i][1])
                fs.append(p < 0 if sg == 0 else p == 0 if sg == 1 else p > 0)
            s.push()
            s.add(*fs)
            s.add(*defs)
            for m, v in vs.items():
                if all(e % 2 == 0 or positive(C.names[at]) for at, e in m):
                    s.add(v > 0 if all(positive(C.names[at]) == 2 for at, e in m) else v >= 0)
            r = s.check()
            s.pop()
            if r != z3.unsat and DEBUG:
                print("PATH", [(C.show(C.names[i][1])[:250], "<=>"[k]) for i, k in cons], "\n  ", C.show(x)[:600], "\n  ", C.show(y)[:600])
            return True if r == z3.unsat else None
        ks = (0, 1, 2) if C.ties else (0, 2)
        for k in ks:
            if go(C.cof(x, d, k), C.cof(y, d, k), cons + [(d, k)]) is not True:
                return None
        return True
    return go(x, y, [])
