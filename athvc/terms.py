"""Hash-consed term language of the VC generator.

Sorts: 'i' mathematical integers (C int/long), 'r' mathematical reals (C Real/double/float), 'b' booleans.
Integer terms are kept in a canonical polynomial form ('ip'); real terms are a DAG that
poly.py puts into polynomial / rational normal form when an obligation is decided.
"""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "__weakref__")

    def __repr__(self):
        return show(self)


EMPTY = frozenset()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    _cnt[0] += 1
    t.id = _cnt[0]
    if op == "var":
        t.fv = frozenset((t,))
    else:
        fv = EMPTY
        for a in args:
            if isinstance(a, T):
                if a.fv:
                    fv = fv | a.fv
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        if b.fv:
                            fv = fv | b.fv
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, T):
                                if c.fv:
                                    fv = fv | c.fv
                            elif isinstance(c, tuple):
                                for d in c:
                                    if isinstance(d, T):
                                        if d.fv:
                                            fv = fv | d.fv
                                    elif isinstance(d, tuple):
                                        for g in d:
                                            if isinstance(g, T) and g.fv:
                                                fv = fv | g.fv
        t.fv = fv
    _tab[key] = t
    return t


# ---------------------------------------------------------------- integers
# ('ip', (const, ((mono, coef), ...)))   mono = tuple of integer atoms sorted by id

def _mkip(const, d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple(a.id for a in mc[0])))
    return mk("ip", (const, items), "i")


def iconst(n):
    return mk("ip", (int(n), ()), "i")


I0 = iconst(0)
I1 = iconst(1)


def iatom(a):
    if a.op == "ip":
        return a
    return mk("ip", (0, (((a,), 1),)), "i")


def isym(name):
    return iatom(mk("isym", (name,), "i"))


def newvar(name):
    _cnt[0] += 1
    return mk("var", (name, _cnt[0]), "i")


def iparts(t):
    if t.op != "ip":
        t = iatom(t)
    return t.args


def iadd(a, b, k=1):
    ca, ia = iparts(a)
    cb, ib = iparts(b)
    if not ib:
        if not ia:
            return iconst(ca + k * cb)
        if cb == 0:
            return iatom(a)
        return mk("ip", (ca + k * cb, ia), "i")
    d = dict(ia)
    for m, c in ib:
        d[m] = d.get(m, 0) + k * c
    return _mkip(ca + k * cb, d)


def isub(a, b):
    return iadd(a, b, -1)


def ineg(a):
    return isub(I0, a)


def imul(a, b):
    ca, ia = iparts(a)
    cb, ib = iparts(b)
    d = {}
    la = list(ia) + ([((), ca)] if ca else [])
    lb = list(ib) + ([((), cb)] if cb else [])
    const = 0
    for m1, c1 in la:
        for m2, c2 in lb:
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            if m:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                const += c1 * c2
    return _mkip(const, d)


def ival(t):
    """python int if constant else None"""
    if t.op == "ip" and not t.args[1]:
        return t.args[0]
    return None


def iatoms(t):
    out = set()
    for m, c in iparts(t)[1]:
        out.update(m)
    return out


def islinear(t):
    return all(len(m) == 1 for m, c in iparts(t)[1])


# ---------------------------------------------------------------- reals
def rconst(x):
    return mk("rc", (Fraction(x),), "r")


R0 = rconst(0)
R1 = rconst(1)


def rsym(name):
    return mk("rs", (name,), "r")


def rval(t):
    return t.args[0] if t.op == "rc" else None


def radd(a, b):
    if a.op == "rc":
        if b.op == "rc":
            return rconst(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "rc" and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("+", (a, b), "r")


def rneg(a):
    if a.op == "rc":
        return rconst(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), "r")


def rsub(a, b):
    if a is b:
        return R0
    if a.op == "rc" and b.op == "rc":
        return rconst(a.args[0] - b.args[0])
    return radd(a, rneg(b))


def rmul(a, b):
    if a.op == "rc":
        if b.op == "rc":
            return rconst(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return R0
        if a.args[0] == 1:
            return b
        if a.args[0] == -1:
            return rneg(b)
    elif b.op == "rc":
        return rmul(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk("*", (a, b), "r")


def rdiv(a, b):
    if b.op == "rc" and b.args[0] != 0:
        return rmul(rconst(1 / b.args[0]), a)
    if a.op == "rc" and a.args[0] == 0:
        return R0
    return mk("/", (a, b), "r")


def i2r(t):
    v = ival(t)
    if v is not None:
        return rconst(v)
    return mk("i2r", (t,), "r")


# ---------------------------------------------------------------- booleans
TRUE = mk("true", (), "b")
FALSE = mk("false", (), "b")


def _prim(t):
    """divide an integer polynomial by content, for canonical comparisons"""
    return t


def ile0(p):
    """p <= 0"""
    v = ival(p)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    return mk("ile0", (iatom(p),), "b")


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), I1))


def ieq(a, b):
    p = isub(a, b)
    v = ival(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    q = ineg(p)
    # canonical sign
    if (q.args[1], q.args[0]) < (p.args[1], p.args[0]) if False else (p.args[1][0][1] < 0):
        p = q
    return mk("ieq0", (p,), "b")


def rcmp(op, a, b):
    """op in < <= == """
    if a.op == "rc" and b.op == "rc":
        x, y = a.args[0], b.args[0]
        r = {"<": x < y, "<=": x <= y, "==": x == y}[op]
        return TRUE if r else FALSE
    if a is b:
        return FALSE if op == "<" else TRUE
    if op == "==" and a.id > b.id:
        a, b = b, a
    return mk({"<": "rlt", "<=": "rle", "==": "req"}[op], (a, b), "b")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ile0":  # not p<=0  ->  p>=1 -> 1-p<=0
        return ile0(isub(I1, a.args[0]))
    if a.op == "rlt":
        return rcmp("<=", a.args[1], a.args[0])
    if a.op == "rle":
        return rcmp("<", a.args[1], a.args[0])
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    return mk("not", (a,), "b")


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda x: x.id)), "b")


def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if bnot(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda x: x.id)), "b")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == "b":
        return bor(band(c, a), band(bnot(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == "i":
        ca, xa = iparts(a)
        cb, xb = iparts(b)
        return iatom(mk("ite", (c, iatom(a), iatom(b)), "i"))
    return mk("ite", (c, a, b), a.sort)


def app(name, args, sort="r"):
    t = mk("app", (name, tuple(args)), sort)
    return iatom(t) if sort == "i" else t


def base_sel(name, idx, sort):
    """element of an uninterpreted array (initial contents, or a havocked version)"""
    t = mk("sel0", (name, tuple(idx)), sort)
    return iatom(t) if sort == "i" else t


class Def:
    """named definition: value of term `body` (over formals) -- lazily expanded.
    body None = uninterpreted (nothing known)"""
    __slots__ = ("name", "formals", "body", "id", "sort", "meta")

    def __init__(self, name, formals, body, sort, meta=None):
        _cnt[0] += 1
        self.id = _cnt[0]
        self.name = name
        self.formals = tuple(formals)
        self.body = body
        self.sort = sort
        self.meta = meta

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "%s@%d" % (self.name, self.id)


def inst(d, actuals):
    t = mk("inst", (d, tuple(iatom(a) for a in actuals)), d.sort)
    return iatom(t) if d.sort == "i" else t


def unfold(t):
    """one-step expansion of an inst term (None if uninterpreted)"""
    d, act = t.args
    if d.body is None:
        return None
    return subst(d.body, dict(zip(d.formals, act)))


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(t, f):
    """rebuild t with children mapped by f"""
    op = t.op
    if op in ("isym", "var", "rc", "rs", "true", "false"):
        return t
    if op == "ip":
        c, items = t.args
        out = iconst(c)
        for m, k in items:
            x = iconst(k)
            for a in m:
                x = imul(x, f(a))
            out = iadd(out, x)
        return out
    a = t.args
    if op == "+":
        return radd(f(a[0]), f(a[1]))
    if op == "*":
        return rmul(f(a[0]), f(a[1]))
    if op == "/":
        return rdiv(f(a[0]), f(a[1]))
    if op == "neg":
        return rneg(f(a[0]))
    if op == "i2r":
        return i2r(f(a[0]))
    if op == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == "ile0":
        return ile0(f(a[0]))
    if op == "ieq0":
        return ieq(f(a[0]), I0)
    if op in ("rlt", "rle", "req"):
        return rcmp({"rlt": "<", "rle": "<=", "req": "=="}[op], f(a[0]), f(a[1]))
    if op == "not":
        return bnot(f(a[0]))
    if op == "and":
        return band(*[f(x) for x in a])
    if op == "or":
        return bor(*[f(x) for x in a])
    if op == "app":
        return app(a[0], [f(x) for x in a[1]], t.sort)
    if op == "sel0":
        return base_sel(a[0], [f(x) for x in a[1]], t.sort)
    if op == "inst":
        return inst(a[0], [f(x) for x in a[1]])
    if op == "poly":
        r = R0
        for m, c in a[0]:
            x = rconst(c)
            for at, e in m:
                y = f(at)
                for _ in range(abs(e)):
                    x = rmul(x, y) if e > 0 else rdiv(x, y)
            r = radd(r, x)
        return r
    if op == "inv":
        return mk("inv", (f(a[0]),), "r")
    if op == "fold":
        kind, d, lo, hi, act, init = a
        return fold(kind, d, f(lo), f(hi), [f(x) for x in act], f(init))
    raise NotImplementedError(op)


def fold(kind, d, lo, hi, act, init):
    """kind in sum,max,min: fold over v=lo..hi of d(v, *act) starting from init"""
    t = mk("fold", (kind, d, iatom(lo), iatom(hi), tuple(iatom(x) for x in act), init), d.sort)
    return iatom(t) if d.sort == "i" else t


def subst(t, m):
    """substitute loop variables (m: var -> int term)"""
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(x):
        if not x.fv or not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "var":
            r = iatom(m[x]) if x in m else x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def mapterm(t, f):
    """bottom-up rewriting: f(node_rebuilt) -> node"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            r = f(r)
            memo[x] = r
        return r
    return go(t)


def replace(t, m):
    """replace whole subterms (dict term->term), top-down"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def subterms(t, stop=None):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop and stop(x):
            continue
        for a in _kids(x):
            stack.append(a)
    return seen


def _kids(x):
    out = []
    if x.op == "ip":
        for m, c in x.args[1]:
            out.extend(m)
        return out
    for a in x.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, tuple):
                            for d in c:
                                if isinstance(d, tuple):
                                    out.extend(z for z in d if isinstance(z, T))
                                elif isinstance(d, T):
                                    out.append(d)
                        elif isinstance(c, T):
                            out.append(c)
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth < 0:
        return "..."
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == "isym" or op == "rs":
        return t.args[0]
    if op == "var":
        return "%s'" % (t.args[0])
    if op == "rc":
        return str(t.args[0])
    if op == "ip":
        c, items = t.args
        out = []
        for m, k in items:
            z = "*".join(s(a) for a in m)
            out.append(z if k == 1 else "-" + z if k == -1 else "%d*%s" % (k, z))
        if c or not out:
            out.append(str(c))
        return "+".join(out).replace("+-", "-")
    if op == "inst":
        return "%s(%s)" % (t.args[0], ",".join(s(a) for a in t.args[1]))
    if op == "sel0":
        return "%s[%s]" % (t.args[0], ",".join(s(a) for a in t.args[1]))
    if op == "app":
        return "%s(%s)" % (t.args[0], ",".join(s(a) for a in t.args[1]))
    if op in ("+", "*", "/"):
        return "(%s %s %s)" % (s(t.args[0]), op, s(t.args[1]))
    if op == "neg":
        return "-%s" % s(t.args[0])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(a) for a in t.args)
    if op == "ile0":
        return "%s<=0" % s(t.args[0])
    if op == "ieq0":
        return "%s==0" % s(t.args[0])
    if op in ("rlt", "rle", "req"):
        return "%s %s %s" % (s(t.args[0]), {"rlt": "<", "rle": "<=", "req": "=="}[op], s(t.args[1]))
    if op == "i2r":
        return "real(%s)" % s(t.args[0])
    if op == "poly":
        return "{%s}" % " + ".join("%s%s" % (c, "".join("*%s%s" % (s(x), "" if e == 1 else "^%d" % e) for x, e in m)) for m, c in t.args[0][:8])
    if op == "fold":
        return "%s{%s..%s}%r(%s|%s)" % (t.args[0], s(t.args[2]), s(t.args[3]), t.args[1], ",".join(s(x) for x in t.args[4]), s(t.args[5]))
    return "%s(%s)" % (op, ",".join(s(a) if isinstance(a, T) else str(a) for a in t.args))
