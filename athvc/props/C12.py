"""explicit diffusion operators: conservative, symmetric, and exact on low-order polynomials"""
import re
from ..integ import *
from ..equiv import *
from ..runner import R
from .. import harn
from ..fncase import call, oblige, REAL
from .C10 import View, ID, fields, pf
from .C11 import side, verdict
TITLE = "Explicit diffusion is conservative, symmetric and has the right magnitude"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["Cartesian coordinates, no shearing box, no super time stepping",
               "the two-argument slope limiter is used through its contract (symmetric, odd, zero for opposite signs, exact for equal slopes), itself proved from its body",
               "decimal literals within 1e-14 of a simple fraction stand for the fraction (magnitude obligations)",
               "B squared exceeds the smallest positive number used as a floor where the field direction is needed"]
BACKENDS = ["symbolic execution of viscosity(), conduction(), resistivity()", "polynomial normal form (exact rationals)", "canonical forms"]
TINY = Fraction(1, 10**20)
OPS = {"viscosity": ("microphysics/viscosity.c", dict(VISCOSITY_MODE="VISCOSITY")),
       "conduction": ("microphysics/conduction.c", dict(CONDUCTION_MODE="THERMAL_CONDUCTION")),
       "resistivity": ("microphysics/resistivity.c", dict(RESISTIVITY_MODE="RESISTIVITY"))}
COEF = {"viscosity": ("nu_iso", "nu_aniso"), "conduction": ("kappa_iso", "kappa_aniso"), "resistivity": ("eta_Ohm", "Q_Hall", "Q_AD")}


def variants(tier):
    out = []
    for dim in (3, 2, 1):
        for gas in ("MHD", "HYDRO"):
            for eos in ("ADIABATIC", "ISOTHERMAL"):
                out.append(("viscosity", gas, eos, dim, ("nu_iso",)))
                if gas == "MHD":
                    out.append(("viscosity", gas, eos, dim, ("nu_iso", "nu_aniso")))
            out.append(("conduction", gas, "ADIABATIC", dim, ("kappa_iso",)))
            if gas == "MHD":
                out.append(("conduction", gas, "ADIABATIC", dim, ("kappa_iso", "kappa_aniso")))
        for eos in ("ADIABATIC", "ISOTHERMAL"):
            out.append(("resistivity", "MHD", eos, dim, ("eta_Ohm",)))
            out.append(("resistivity", "MHD", eos, dim, ("eta_Ohm", "Q_AD")))
            out.append(("resistivity", "MHD", eos, dim, ("eta_Ohm", "Q_Hall", "Q_AD")))
    return out


def tasks(tier):
    out = []
    for v in variants(tier):
        nm = "%s %s %s %dD %s" % (v[0], v[1], v[2], v[3], "+".join(v[4]))
        out.append((nm + " conservation", "conserve", v))
        if "Q_Hall" not in v[4]:
            out.append((nm + " symmetry", "symm", v))
        out.append((nm + " exactness", "exact", v))
    out.append(("slope limiters", "limiters", ()))
    return out


def lim_contract(eng, st, args):
    return app("lim2", [a for a, _ in args])


def run_op(op, gas, eos, dim, on, limit=True):
    f, mode = OPS[op]
    P = program([f, "cc_pos.c"], GAS=gas, EOS=eos, NSCALARS="1", **mode)
    fs, vals = grid_facts(4, dim)
    for d in range(3):
        vals[("D", ("Nx", "#%d" % d))] = vals[("G", ("Nx", "#%d" % d))]
    for c in COEF[op]:
        if c not in on:
            vals[(c, ())] = R0
    con = {"limiter2": lim_contract} if limit and "limiter2" in P.funcs else {}
    e = Engine(P, fs, con, vals)
    st, _ = run(e, op, [(Ptr("D", (), I0, "obj"), DPTR)])
    e.bounds = bounds(vals)
    return e, st


def conserve(op, gas, eos, dim, on):
    e, st = run_op(op, gas, eos, dim, on)
    out = [side(e)]
    ix, iv, F = cell(e, dim)
    D = lambda *suf: rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
    change = {"viscosity": ["M1", "M2", "M3", "E"], "conduction": ["E"], "resistivity": ["E", "B1c", "B2c", "B3c"]}[op]
    for f in fields(gas, eos):
        nm = ".".join(f)
        if f[0] not in change:
            ok, p, N = expand_zero(D(*f), F=F)
            out.append(R("proved" if ok else "failed" if ok is False else "unknown", "" if ok else str(p)[:200], name="%s unchanged" % nm))
        elif op == "resistivity" and f[0][0] == "B" and int(f[0][1]) <= dim:
            a = int(f[0][1])
            up = list(ix)
            up[3 - a] = iadd(up[3 - a], I1)
            if a == 1 and dim == 1:
                ok, p, N = expand_zero(D(*f), F=F)
                out.append(R("proved" if ok else "failed" if ok is False else "unknown", name="B1c unchanged"))
                continue
            x = rsub(readloc(e, st, "G.U", ix + f), rmul(rconst("1/2"), radd(readloc(e, st, "G.B%di" % a, ix), readloc(e, st, "G.B%di" % a, tuple(up)))))
            ok, p, N = expand_zero(x, F=F)
            out.append(R("proved" if ok else "failed" if ok is False else "unknown", "" if ok else str(p)[:200], name="%s is the average of the interface values" % nm))
        else:
            verdict(out, "%s changes by differences of interface values" % nm, *expand_conserved(D(*f), iv, F=F, budget=60))
    if gas == "MHD":
        for a in (1, 2, 3):
            db = rsub(readloc(e, st, "G.B%di" % a, ix), readloc(e, S0, "G.B%di" % a, ix))
            if op != "resistivity" or (a == 1 and dim == 1):
                ok, p, N = expand_zero(db, F=F)
                out.append(R("proved" if ok else "failed" if ok is False else "unknown", name="B%di unchanged" % a))
            elif a > dim:
                ok, p, N = expand_zero(rsub(readloc(e, st, "G.B%di" % a, ix), readloc(e, st, "G.U", ix + ("B%dc" % a,))), F=F)
                out.append(R("proved" if ok else "failed" if ok is False else "unknown", name="B%di equals the cell value" % a))
            else:
                verdict(out, "total B%di changes by differences of interface values" % a, *expand_conserved(db, iv, F=F, budget=60))
        if op == "resistivity":
            for fx in cases(dim):
                ix, iv, F = cell(e, dim, fx)
                ok, p, N = expand_zero(rsub(divB(e, st, ix, dim), divB(e, S0, ix, dim)), F=F)
                out.append(R("proved" if ok else "failed" if ok is False else "unknown", "" if ok else str(p)[:200], name="divergence of B unchanged, cell %s" % "/".join(fx)))
    return out


LIM = {"lim2": [lambda C, fam, comp, a: ("lim2", (a[0], a[1]), 1), lambda C, fam, comp, a: ("lim2", (a[1], a[0]), 1),
                lambda C, fam, comp, a: ("lim2", (C.scale(a[0], -1), C.scale(a[1], -1)), -1),
                lambda C, fam, comp, a: ("lim2", (C.scale(a[1], -1), C.scale(a[0], -1)), -1)]}


def lim_rule(C, fam, comp, a):
    """the limiter's contract: exact for equal slopes, zero for a zero slope or opposite slopes"""
    if fam != "lim2":
        return None
    if C is NumOps:
        return (a[0] + a[1]) * a[0] * a[1] / (a[0] * a[0] + a[1] * a[1]) if a[0] or a[1] else 0.0
    if a[0] == a[1]:
        return a[0]
    if not a[0] or not a[1] or a[0] == C.scale(a[1], -1):
        return C.const(0)
    return None


DView = View


def canon(on):
    C = Canon(None, exch=LIM, rules=(lim_rule,))
    for c in on:
        C.known[C.of(C.atom(("sym", c)))] = 1
    return C


def obl(C, out):
    def ob(name, a, b):
        r, w = compare(C, a, b)
        if r == "equal":
            out.append(R("proved", name=name))
        elif r == "sampled":
            out.append(R("bounded", "canonical forms differ textually, equal at 3 sampled interpretations", name=name))
        else:
            out.append(R("failed", "values %r and %r" % w, name=name))
    return ob


def symm(op, gas, eos, dim, on):
    e, st = run_op(op, gas, eos, dim, on)
    out = [side(e)]
    C = canon(on)
    ob = obl(C, out)
    V = DView(C, e, st, dim, ("inner",) * dim, gas)
    v0 = V.evaluator()
    fl = fields(gas, eos)
    ref = {f: v0(V.u(f)) for f in fl}
    nb = dim if op == "resistivity" else 0
    for a in range(1, nb + 1):
        ref["B%di" % a] = v0(V.b(a))
        ref["B%di+" % a] = v0(V.b(a, 1))
    for fx in cases(dim):
        if "last" not in fx:
            continue
        W = DView(C, e, st, dim, fx, gas)
        w0 = W.evaluator()
        for f in fl:
            ob("cell %s: %s as in the interior" % ("/".join(fx), ".".join(f)), w0(W.u(f)), ref[f])
        for a in range(1, nb + 1):
            ob("cell %s: B%di as in the interior" % ("/".join(fx), a), w0(W.b(a)), ref["B%di" % a])
            ob("cell %s: upper B%di as in the interior" % ("/".join(fx), a), w0(W.b(a, 1)), ref["B%di+" % a])
    rels = [("mirrored x%d" % a, ID, a) for a in range(1, dim + 1)]
    if dim == 3:
        rels = [("cyclic relabelling", {1: 2, 2: 3, 3: 1}, None), ("x1 and x2 exchanged", {1: 2, 2: 1, 3: 3}, None)] + rels
    if dim == 2:
        rels = [("x1 and x2 exchanged", {1: 2, 2: 1, 3: 3}, None)] + rels
    if dim == 1:
        rels.append(("x2 and x3 exchanged", {1: 1, 2: 3, 3: 2}, None))
    for nm, perm, mir in rels:
        v1 = V.evaluator(perm, mir)
        for f in fl:
            b = ref[pf(f, perm)]
            if mir and f[0] in ("M%d" % mir, "B%dc" % mir):
                b = C.scale(b, -1)
            ob("%s: %s" % (nm, ".".join(f)), v1(V.u(f)), b)
        for a in range(1, nb + 1):
            if perm[a] > dim:
                continue
            b = C.scale(ref["B%di+" % a], -1) if mir == a else ref["B%di" % perm[a]]
            ob("%s: B%di" % (nm, a), v1(V.b(a)), b)
    v1 = V.evaluator(mode="uniform")
    for f in fl:
        ob("uniform state: %s unchanged" % ".".join(f), v1(V.u(f)), v1(readloc(e, S0, "G.U", V.ix + f)))
    for a in range(1, nb + 1):
        ob("uniform state: B%di unchanged" % a, v1(V.b(a)), v1(readloc(e, S0, "G.B%di" % a, V.ix)))
    for edim in range(1, dim):
        if edim == 1 and any("aniso" in c for c in on):
            continue    # the anisotropic operators do not act in one dimension
        e2, st2 = run_op(op, gas, eos, edim, on)
        V2 = DView(C, e2, st2, edim, ("inner",) * edim, gas)
        w = V2.evaluator(mode="embed", edim=edim)
        v = V.evaluator(mode="embed", edim=edim)
        for f in fl:
            C.F = V.F
            x = v(V.u(f))
            C.F = V2.F
            ob("%dD data in %dD: %s" % (edim, dim, ".".join(f)), x, w(V2.u(f)))
        for a in range(1, (edim if nb else 0) + 1):
            C.F = V.F
            x = v(V.b(a))
            C.F = V2.F
            ob("%dD data in %dD: B%di" % (edim, dim, a), x, w(V2.b(a)))
    return out


class Trunc(Canon):
    """canonical forms to first order in the time step, sums always expanded"""
    EXPAND = 10**7

    def const(self, c):
        c = Fraction(c)
        r = c.limit_denominator(1000)     # decimal literals such as 0.3333333333333333 stand for the fraction
        return Canon.const(self, r if abs(r - c) < Fraction(1, 10**14) and abs(c) > Fraction(1, 1000) else c)

    def mul(self, p, q):
        dt = self.atom(("sym", "G.dt"))
        r = {}
        for m1, c1 in p:
            for m2, c2 in q:
                m = self.mmul(m1, m2)
                if any(a == dt and x > 1 for a, x in m):
                    continue
                r[m] = r.get(m, 0) + c1 * c2
        return frozenset((m, c) for m, c in r.items() if c)


def subst(C, p, f):
    """replace atoms (positive powers) for which f(key) gives a polynomial"""
    out = frozenset()
    for m, c in p:
        r = C.const(c)
        for a, x in m:
            q = f(C.names[a]) if x > 0 else None
            if q is None:
                r = C.mul(r, frozenset({(((a, x),), Fraction(1))}))
            else:
                for _ in range(x):
                    r = C.mul(r, q)
        out = C.add(out, r)
    return out


class Poly:
    """test data: polynomials in the position relative to the centre of the cell"""

    def __init__(self, C, dim):
        self.C, self.dim = C, dim

    def S(self, n):
        return self.C.of(self.C.atom(("sym", n)))

    def X(self, off, face=None):
        C = self.C
        out = []
        for a in (1, 2, 3):
            o = Fraction(off[3 - a]) - (Fraction(1, 2) if a == face else 0)
            out.append(C.scale(self.S("G.dx%d" % a), o) if a <= self.dim else C.const(0))
        return out

    def val(self, name, x, order):
        C = self.C
        r = self.S(name)
        for a in range(1, self.dim + 1):
            if order > 0:
                r = C.add(r, C.mul(self.S("%s,%d" % (name, a)), x[a - 1]))
            if order > 1:
                for b in range(1, self.dim + 1):
                    r = C.add(r, C.scale(C.mul(self.S("%s,%d%d" % (name, min(a, b), max(a, b))), C.mul(x[a - 1], x[b - 1])), Fraction(1, 2)))
        return r

    def d(self, name, a):
        return self.S("%s,%d" % (name, a)) if a <= self.dim else self.C.const(0)

    def dd(self, name, a, b):
        return self.S("%s,%d%d" % (name, min(a, b), max(a, b))) if max(a, b) <= self.dim else self.C.const(0)


def exact(op, gas, eos, dim, on):
    e, st = run_op(op, gas, eos, dim, on)
    out = [side(e)]
    ix, _, F = cell(e, dim, ("inner",) * dim)
    for case in {"viscosity": ("v2", "d1"), "conduction": ("v2", "d1"), "resistivity": ("v2", "d1")}[op]:
        if case == "v2" and any("aniso" in c for c in on):
            continue
        C = Trunc(F, exch=LIM, rules=(lim_rule,))
        for c in on:
            C.known[C.of(C.atom(("sym", c)))] = 1
        P = Poly(C, dim)
        ord1, ordd = (2, 0) if case == "v2" else (1, 1)
        sc = lambda *a: [__import__("functools").reduce(C.mul, a)][0]
        sm = lambda l: __import__("functools").reduce(C.add, l, C.const(0))
        rho = lambda off: C.of(C.atom(("leaf", "rho", tuple(off))))
        vel = lambda n, off: P.val("v%d" % n, P.X(off), ord1)
        B = lambda n, off, face=None: P.val("b%d" % n, P.X(off, face), 0 if op != "resistivity" else ord1)

        def leaf(nm, idx):
            off = tuple(ival(isub(a, b)) for a, b in zip(idx, ix))
            if None in off or not nm.startswith("G."):
                raise Unsupported("leaf " + nm)
            m = re.match(r"G\.B([123])i", nm)
            if m:
                a = int(m.group(1))
                return B(a, off, a if a <= dim else None)
            last = nm.rsplit(".", 1)[-1]
            if last in ("B1c", "B2c", "B3c"):
                return B(int(last[1]), off)
            if nm.startswith("G.eta_Hall"):
                # Hall coefficient proportional to the field strength
                bm = C.add(C.mkapp("sqrt", (sm([sc(B(n, off), B(n, off)) for n in (1, 2, 3)]),)), C.const(TINY))
                c, m = C.mono(bm)
                return C.mul(P.S("qH"), frozenset({(m, c)}))
            if nm.startswith("G.eta_"):
                return P.val(nm[2:].split("[")[0], P.X(off), ordd if "Ohm" in nm else 0)
            if last == "d":
                return rho(off)
            if last in ("M1", "M2", "M3") and op == "viscosity":
                return C.mul(rho(off), vel(int(last[1]), off))
            if last == "E" and op == "conduction":
                r = C.mul(C.mul(rho(off), C.inv(P.S("Gamma_1"))), P.val("T", P.X(off), ord1))
                for n in (1, 2, 3):
                    mm = leaf(nm[:-1] + "M%d" % n, idx)
                    r = C.add(r, C.scale(C.mul(C.mul(mm, mm), C.inv(rho(off))), Fraction(1, 2)))
                    if gas == "MHD":
                        r = C.add(r, C.scale(C.mul(B(n, off), B(n, off)), Fraction(1, 2)))
                return r
            return C.of(C.atom(("leaf", nm, off)))
        bsq = sm([sc(P.S("b%d" % n), P.S("b%d" % n)) for n in (1, 2, 3)])
        C.known[C.add(bsq, C.const(-TINY))] = 1
        v = C.evaluator(leaf, P.S)

        def back(p):
            return subst(C, p, lambda k: P.val("rho", P.X(k[2]), ordd) if k[0] == "leaf" and k[1] == "rho" else None)
        dt = P.S("G.dt")
        ob = obl(C, out)
        D = lambda f: back(C.add(v(readloc(e, st, "G.U", ix + (f,))), C.scale(v(readloc(e, S0, "G.U", ix + (f,))), -1)))
        R3 = range(1, 4)
        third = Fraction(1, 3)
        if op == "viscosity" and case == "v2":
            nu = P.S("nu_iso")
            for n in R3:
                w = sm([P.dd("v%d" % n, b, b) for b in R3] + [C.scale(P.dd("v%d" % b, n, b), third) for b in R3])
                ob("M%d: quadratic velocity, constant density: dt nu rho (laplacian v + grad div v/3)" % n, D("M%d" % n), sc(dt, nu, P.S("rho"), w))
        elif op == "viscosity":
            dv = lambda a, n: P.d("v%d" % n, a)
            div = sm([dv(a, a) for a in R3])
            bh = lambda a, n: sc(P.S("b%d" % a), P.S("b%d" % n), C.inv(bsq))
            bbv = sm([sc(bh(a, n), dv(a, n)) for a in R3 for n in R3])
            qa = C.add(bbv, C.scale(div, -third))

            def tau(a, n):
                r = sc(P.S("nu_iso"), sm([dv(a, n), dv(n, a)] + ([C.scale(div, -2 * third)] if a == n else [])))
                if "nu_aniso" in on and dim > 1:
                    r = C.add(r, sc(P.S("nu_aniso"), qa, C.add(C.scale(bh(a, n), 3), C.const(-1 if a == n else 0))))
                return r
            for n in R3:
                ob("M%d: linear velocity and density: dt grad(rho).stress" % n, D("M%d" % n), sc(dt, sm([sc(P.d("rho", a), tau(a, n)) for a in R3])))
            if eos == "ADIABATIC":
                w = sm([sc(tau(a, n), C.add(sc(P.d("rho", a), P.S("v%d" % n)), sc(P.S("rho"), dv(a, n)))) for a in range(1, dim + 1) for n in R3])
                ob("E: linear velocity and density: dt div(v.stress)", D("E"), sc(dt, w))
        elif op == "conduction" and case == "v2":
            ob("E: quadratic temperature, constant density: dt kappa rho laplacian T", D("E"), sc(dt, P.S("kappa_iso"), P.S("rho"), sm([P.dd("T", b, b) for b in R3])))
        elif op == "conduction":
            w = sc(P.S("kappa_iso"), sm([sc(P.d("rho", b), P.d("T", b)) for b in R3]))
            if "kappa_aniso" in on and dim > 1:
                bg = sm([sc(P.S("b%d" % b), P.d("T", b)) for b in R3])
                w = C.add(w, sc(P.S("kappa_aniso"), bg, C.inv(bsq), sm([sc(P.d("rho", b), P.S("b%d" % b)) for b in R3])))
            ob("E: linear temperature and density: dt div(rho kappa grad T), along the field for the anisotropic part", D("E"), sc(dt, w))
        else:
            def DB(n, up=0):
                i2 = list(ix)
                if n > dim:
                    return D("B%dc" % n)
                i2[3 - n] = iadd(i2[3 - n], iconst(up))
                return C.add(v(readloc(e, st, "G.B%di" % n, tuple(i2))), C.scale(v(readloc(e, S0, "G.B%di" % n, tuple(i2))), -1))
            cyc = {1: (2, 3), 2: (3, 1), 3: (1, 2)}
            J = {n: C.add(P.d("b%d" % q, p), C.scale(P.d("b%d" % p, q), -1)) for n, (p, q) in cyc.items()}
            eta = P.S("eta_Ohm")
            if case == "v2":
                if "Q_AD" in on or "Q_Hall" in on:
                    continue
                for n in R3:
                    # -(curl curl B)_n = laplacian B_n - d_n div B
                    w = C.add(sm([P.dd("b%d" % n, a, a) for a in R3]), C.scale(sm([P.dd("b%d" % a, n, a) for a in R3]), -1))
                    ob("B%d: quadratic field, uniform resistivity: -dt eta curl curl B" % n, DB(n), sc(dt, eta, w))
                continue
            deta = {n: P.d("eta_Ohm", n) for n in R3}
            ohm = {n: C.add(C.scale(sc(deta[p], J[q]), -1), sc(deta[q], J[p])) for n, (p, q) in cyc.items()}
            if "Q_AD" in on:
                ad = {}

                def edge(n, x):
                    """ambipolar EMF at an edge"""
                    b = {m: P.val("b%d" % m, x, 1) for m in R3}
                    b2 = C.add(sm([sc(b[m], b[m]) for m in R3]), C.const(TINY))
                    jb = sm([sc(J[m], b[m]) for m in R3])
                    return sc(P.S("eta_AD"), C.add(J[n], C.scale(sc(jb, b[n], C.inv(b2)), -1)))

                def pos(n, sh):
                    """edge next to the point where B_n lives, displaced by half a zone along sh"""
                    x = [C.scale(P.S("G.dx%d" % n), Fraction(-1, 2)) if a == n and n <= dim else C.const(0) for a in R3]
                    a, s2 = sh
                    x[a - 1] = C.scale(P.S("G.dx%d" % a), Fraction(s2, 2)) if a <= dim else C.const(0)
                    return x
                for n, (p, q) in cyc.items():
                    w = C.const(0)
                    for a, m, sg in ((p, q, -1), (q, p, 1)):
                        if a <= dim:
                            w = C.add(w, C.scale(sc(C.add(edge(m, pos(n, (a, 1))), C.scale(edge(m, pos(n, (a, -1))), -1)), C.inv(P.S("G.dx%d" % a))), sg))
                    ohm[n] = C.add(ohm[n], w)
            if "Q_Hall" in on:
                divb = sm([P.d("b%d" % a, a) for a in R3])
                for n in R3:
                    w = C.add(sc(J[n], divb), C.scale(sm([sc(J[a], P.d("b%d" % n, a)) for a in R3]), -1))
                    ohm[n] = C.add(ohm[n], C.scale(sc(P.S("qH"), w), -1))
            for n in R3:
                ob("B%d: linear field and resistivity: -dt curl of the EMF" % n, DB(n), sc(dt, ohm[n]))
            if eos == "ADIABATIC" and "Q_AD" not in on:
                w = sc(eta, sm([sc(J[n], J[n]) for n in R3]))
                for n, (p, q) in cyc.items():
                    w = C.add(w, sc(deta[n], C.add(sc(P.S("b%d" % p), J[q]), C.scale(sc(P.S("b%d" % q), J[p]), -1))))
                ob("E: linear field and resistivity: dt div(eta B x J)", D("E"), sc(dt, w))
    return out


def limiters():
    out = []
    for op, gas in (("viscosity", "MHD"), ("conduction", "MHD")):
        P = program([OPS[op][0]], GAS=gas, EOS="ADIABATIC", NSCALARS="0", **OPS[op][1])
        if "limiter2" not in P.funcs:
            continue
        a, b = rsym("A"), rsym("B")
        f = lambda x, y: call(P, "limiter2", [(x, REAL, "val"), (y, REAL, "val")])[0]
        z = rconst(0)
        out.append(oblige(op + " limiter symmetric", rsub(f(a, b), f(b, a))))
        out.append(oblige(op + " limiter odd", radd(f(a, b), f(rneg(a), rneg(b)))))
        out.append(oblige(op + " limiter exact for equal slopes", rsub(f(a, a), a)))
        out.append(oblige(op + " limiter zero for a zero slope", f(a, z)))
        out.append(oblige(op + " limiter zero for opposite slopes", f(a, rneg(a))))
    return out


def jobs():
    s = harn.seed()
    J = []
    D = [[9, 1, 1], [8, 7, 1], [6, 5, 7]]
    PA = [[8, 6, 1, 2, .3, 'p'], [6, 5, 7, 3, .3, 'p'], [8, 6, 1, 2, .3, 'd'], [6, 5, 7, 3, .3, 'u']]
    P1 = PA + [[8, 1, 1, 1, .3, 'p'], [8, 1, 1, 1, .3, 'd']]
    for op in OPS:
        m = OPS[op][1]
        for gas in ("MHD", "HYDRO"):
            if gas == "HYDRO" and op == "resistivity":
                continue
            for eos in ("ADIABATIC", "ISOTHERMAL"):
                if eos == "ISOTHERMAL" and (op == "conduction" or gas == "HYDRO"):
                    continue
                for kind in ((1, 2, 3) if gas == "MHD" else (1,)):
                    c = dict(m, GAS=gas, EOS=eos, NSCALARS="1")
                    for hall in ((0, 1) if op == "resistivity" and kind == 3 else (0,)):
                        df = ("KIND=%d" % kind, "HALL=%d" % hall)
                        if eos == "ADIABATIC":
                            J.append(("equiv.c", c, ("DIFF",) + df, PA if kind > 1 and op != "resistivity" else P1)) if not hall else None
                        J.append(("diff.c", c, df, [d + [s + n + q, t] for n, d in enumerate(D) for q in (0, 1) for t in "cv"]))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
