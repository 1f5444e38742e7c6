"""time-step selection: new_dt()"""
from ..integ import *
from ..fncase import *
from ..runner import R
from .. import harn
TITLE = "The time step obeys the Courant condition in every cell and ends at the limit"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["par_getd(\"time\",\"tlim\") returns the time limit (contract)",
               "one Grid per process in the proof; two refinement levels, particles, cylindrical coordinates and relativity only by the compiled companion runs (bounded)",
               "density > 0, cell sizes > 0"]
BACKENDS = ["symbolic execution (max-fold summaries)", "rational-function normal form", "z3"]
MPTR = ptr(CT("struct", "Mesh_s"))


def confs():
    return [dict(GAS=g, EOS=e, NSCALARS="0") for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL")]


def tasks(tier):
    out = []
    for c in confs():
        for dim in (1, 2, 3):
            for first in (True, False):
                out.append(("%s %s %dD %s" % (c["GAS"], c["EOS"], dim, "first step" if first else "later step"), "check", (c, dim, first)))
    for dim in (1, 2, 3):
        for first in (True, False):
            out.append(("relativistic %dD %s" % (dim, "first step" if first else "later step"), "check",
                        (dict(GAS="HYDRO", EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY"), dim, first)))
    for c in confs():
        for dim in (1, 2, 3):
            out.append(("two levels %s %s %dD" % (c["GAS"], c["EOS"], dim), "levels", (dict(c, MESH_REFINEMENT="STATIC_MESH_REFINEMENT"), dim)))
    for dim in (1, 3):
        out.append(("particles %dD" % dim, "check", (dict(GAS="HYDRO", EOS="ADIABATIC", NSCALARS="0", PARTICLES_ALGORITHM="PARTICLES"), dim, True)))
    return out


def single(vals, N):
    """Mesh M with one level, one Domain, one Grid G"""
    vals[("M", ("NLevels",))] = I1
    vals[("M", ("DomainsPerLevel",))] = Ptr("DPL", (), I0, "arr")
    vals[("DPL", ("[]",))] = I1
    vals[("M", ("Domain",))] = Ptr("DD", (), I0, "arr")
    vals[("DD", ("[]", "[]", "Grid"))] = Ptr("G", (), I0, "obj")


class Fold:
    pass


def absfold(t, full):
    """replace max-folds by symbols: -> (term, {symbol: (ranges, body)}); body at generic cell variables"""
    rec = {}

    def inner(x):
        """fold -> (ranges, body) with neutral init"""
        kind, d, lo, hi, act, init = x.args
        v = newvar("c")
        body = full(inst(d, (iatom(v),) + tuple(act)))
        r = [(v, lo, hi)]
        if body.op == "fold" and body.args[0] == kind and body.args[5].op == "app" and body.args[5].args[0] == "neutral_" + kind:
            r2, b2 = inner(body)
            return r + r2, b2
        return r, body

    def f(x):
        if x.op == "fold" and x.args[0] == "max":
            m = rsym("max%d" % len(rec))
            rec[m] = inner(x)
            init = go(x.args[5])
            if rval(init) == 0:
                return m       # speeds are not negative (checked on the body)
            return ite(rcmp("<", init, m), m, init)
        return x

    def go(y):
        return mapterm(y, f)
    return go(t), rec


def speed(conf, dim, d, idx, e, g="G"):
    """|v_d| + fast speed in direction d of cell idx=(k,j,i)"""
    st0 = State({}, ())
    U = lambda *suf: readloc(e, st0, g + ".U", tuple(idx) + suf)
    di = rdiv(R1, U("d"))
    v = [rmul(U("M%d" % n), di) for n in (1, 2, 3)]
    q = rsum(*[sq(x) for x in v])
    mhd = conf["GAS"] == "MHD"
    if mhd:
        b = []
        for n in (1, 2, 3):
            c = U("B%dc" % n)
            b.append(radd(rabs(c), rabs(rsub(readloc(e, st0, g + ".B%di" % n, tuple(idx)), c))))
        bs = rsum(*[sq(x) for x in b])
    if conf["EOS"] == "ADIABATIC":
        p = rsub(U("E"), rprod(HALF, U("d"), q))
        if mhd:
            p = rsub(p, rmul(HALF, bs))
        p = rmul(rsub(rsym("Gamma"), R1), p)
        p = ite(rcmp("<", TINY, p), p, TINY)
        a2 = rprod(rsym("Gamma"), p, di)
    else:
        a2 = sq(rsym("Iso_csound"))
    if not mhd:
        return radd(rabs(v[d]), sqrt_(a2)), p if conf["EOS"] == "ADIABATIC" else None
    s = radd(rmul(bs, di), a2)
    df = rsub(rmul(bs, di), a2)
    t = rsub(bs, sq(b[d]))
    c2 = rmul(HALF, radd(s, sqrt_(radd(sq(df), rprod(rconst(4), a2, t, di)))))
    return radd(rabs(v[d]), sqrt_(c2)), p if conf["EOS"] == "ADIABATIC" else None


def rabs(x):
    return ite(rcmp("<", x, R0), rneg(x), x)


def check(conf, dim, first):
    P = program(["new_dt.c"], **conf)
    fs, vals = grid_facts(4, dim)
    single(vals, None)
    vals[("M", ("nstep",))] = I0 if first else iconst(5)
    tlim = rsym("tlim")
    e = Engine(P, fs, {"par_getd": lambda eng, st, args: (tlim, REAL)}, {**GASVALS, **vals})
    st, _ = run(e, "new_dt", [(Ptr("M", (), I0, "obj"), MPTR)])
    F = Facts(fs)
    full = resolver(F)
    dt = full(readloc(e, st, "M", ("dt",)))
    st0 = State({}, ())
    gdt = full(readloc(e, st, "G", ("dt",)))
    old = readloc(e, st0, "M", ("dt",))
    time = readloc(e, st0, "M", ("time",))
    cour = readloc(e, st0, "CourNo", ())
    dx = [readloc(e, st0, "G", ("dx%d" % (d + 1),)) for d in range(3)]
    out = [R("proved" if gdt is dt else "unknown", "Grid dt %s" % show(gdt, 3), name="every Grid receives the Mesh time step", functions=["new_dt"])]
    adt, rec = absfold(dt, full)
    sr = "SPECIAL_RELATIVITY_MODE" in conf
    rate = R0
    pre = [rcmp("<", R0, x) for x in dx[:dim]] + [rcmp("<", R0, cour), rcmp("<", R0, old)]
    used = set()
    bnds = [b for b in bounds(vals)][::-1]
    for d in range(dim):
        if sr:
            m = R1
        else:
            hit, why = None, ''
            for s, (rg, body) in rec.items():
                idx = ranges_ok(F, rg, bnds)
                if s in used or idx is None:
                    continue
                want, _ = speed(conf, dim, d, idx, e)
                dens = readloc(e, st0, "G.U", tuple(idx) + ("d",))
                r = oblige("x", rsub(body, want), [rcmp("<", R0, dens), rcmp("<", R1, rsym("Gamma"))], gen=False)
                why = r["status"] + " " + str(r["detail"])[:300]
                if r["status"] == "proved":
                    hit = s
                    break
            if hit is None:
                return out + [R("unknown", "no maximum over the active cells of the signal speed in direction %d recognised: %s" % (d + 1, why), name="direction %d" % (d + 1))]
            used.add(hit)
            m = hit
            out.append(R("proved", name="direction %d: maximum of |v|+c over exactly the active cells" % (d + 1)))
            pre.append(rcmp("<", R0, m))
        if "PARTICLES_ALGORITHM" in conf:
            hit = None
            for s, (rg, body) in rec.items():
                if s in used or len(rg) != 1:
                    continue
                v, a, b = rg[0]
                np_ = e.lookup(st0, *e.loc("G", ("nparticle",))[:1], INT, e.loc("G", ("nparticle",))[1])
                if not (prove(F, ieq(a, I0)) and prove(F, ieq(iadd(b, I1), np_))):
                    continue
                want = rabs(readloc(e, st0, "G.particle", (iatom(v), "v%d" % (d + 1))))
                if oblige("x", rsub(body, want), gen=False)["status"] == "proved":
                    hit = s
                    break
            if hit is None:
                return out + [R("unknown", "no maximum over the particles recognised: %s" % ([(len(r_), show(b_, 4)[:300]) for r_, b_ in rec.values()],), name="particles direction %d" % (d + 1))]
            used.add(hit)
            pre.append(rcmp("<=", R0, hit))
            m = ite(rcmp("<", m, hit), hit, m)
            out.append(R("proved", name="direction %d: maximum of |v| over all particles" % (d + 1)))
        q = rdiv(m, dx[d])
        rate = ite(rcmp("<", rate, q), q, rate)
    want = rdiv(cour, rate)
    if not first:
        want = ite(rcmp("<", want, rmul(rconst(2), old)), want, rmul(rconst(2), old))
    left = rsub(tlim, time)
    want = ite(rcmp("<", time, tlim), ite(rcmp("<", left, want), left, want), want)
    out.append(oblige("dt is the Courant limit of the fastest cell, growth-limited, cut to reach the time limit exactly", rsub(adt, want), pre, gen=False))
    return out


def conj(c):
    return [x for a in c.args for x in conj(a)] if c.op == "and" else [c]


def minmax(t):
    """('max'|'min', a, b) for the conditional forms of MAX and MIN (also with extra conjuncts for min: value <= b)"""
    if t.op != "ite" or t.sort != "r":
        return None
    c, a, b = t.args
    for x in conj(c):
        if x.op in ("rlt", "rle"):
            u, w = x.args
            if u is a and w is b:
                return ("min", a, b) if len(conj(c)) == 1 else ("leb", a, b)
            if u is b and w is a and len(conj(c)) == 1:
                return ("max", a, b)
    return None


def le(a, b, depth=40):
    """structural proof of a <= b from monotonicity of max, min, x/dx (dx>0) and cour/x (x>0)"""
    if a is b:
        return True
    if depth == 0:
        return False
    m = minmax(a)
    if m:
        k, x, y = m
        if k == "min" and (le(x, b, depth - 1) or le(y, b, depth - 1)):
            return True
        if k == "leb" and le(y, b, depth - 1):
            return True
        if k == "max" and le(x, b, depth - 1) and le(y, b, depth - 1):
            return True
    m = minmax(b)
    if m:
        k, x, y = m
        if k == "max" and (le(a, x, depth - 1) or le(a, y, depth - 1)):
            return True
        if k == "min" and le(a, x, depth - 1) and le(a, y, depth - 1):
            return True
    if a.op == "/" and b.op == "/":
        (p, q), (r, t) = a.args, b.args
        if q is t and positive(q):
            return le(p, r, depth - 1)
        if p is r and positive(p):
            return le(t, q, depth - 1)
    return False


def positive(x):
    return x.op == "rs" and (x.args[0] == "CourNo" or ".dx" in x.args[0])


def ranges_ok(F, rg, bnds):
    """-> cell index (k,j,i) if the fold ranges are exactly the active ranges (a one-cell range may be absent)"""
    idx, n = [], 0
    rg = list(rg)
    for lo, hi in bnds:
        if rg and prove(F, ieq(rg[0][1], lo)) and prove(F, ieq(rg[0][2], hi)):
            idx.append(iatom(rg.pop(0)[0]))
        elif prove(F, ieq(lo, hi)):
            idx.append(lo)
        else:
            return None
    return idx if not rg else None


def levels(conf, dim):
    """two Grids on different levels: the step obeys the Courant limit of every active cell of both"""
    P = program(["new_dt.c"], **conf)
    fs, vals = [], {}
    rngs = {}
    for g in ("GA", "GB"):
        f, v = grid_facts(4, dim)
        sub = {}
        for d in range(3):
            sub[isym("N%d" % (d + 1))] = isym("N%d%s" % (d + 1, g))
        for (o, path), x in v.items():
            if o == G:
                vals[(g, path)] = replace(x, {list(iatoms(a))[0]: list(iatoms(b))[0] for a, b in sub.items()})
        fs += [ile(iconst(4), isym("N%d%s" % (d + 1, g))) for d in range(dim)]
        rngs[g] = [(vals[(g, (a,))], vals[(g, (b,))]) for a, b in (("ks", "ke"), ("js", "je"), ("is", "ie"))]
    vals[("M", ("NLevels",))] = iconst(2)
    vals[("M", ("DomainsPerLevel",))] = Ptr("DPL", (), I0, "arr")
    vals[("DPL", ("[]",))] = I1
    vals[("M", ("Domain",))] = Ptr("DD", (), I0, "arr")
    vals[("DD", ("[]", "[]", "Grid"))] = lambda eng, idx: Ptr("GA" if ival(idx[0]) == 0 else "GB", (), I0, "obj")
    vals[("M", ("nstep",))] = iconst(5)
    tlim = rsym("tlim")
    e = Engine(P, fs, {"par_getd": lambda eng, st, args: (tlim, REAL)}, {**GASVALS, **vals})
    st, _ = run(e, "new_dt", [(Ptr("M", (), I0, "obj"), MPTR)])
    F = Facts(fs)
    full = resolver(F)
    st0 = State({}, ())
    dt = full(readloc(e, st, "M", ("dt",)))
    out = []
    for g in ("GA", "GB"):
        out.append(R("proved" if full(readloc(e, st, g, ("dt",))) is dt else "unknown", name="Grid %s receives the Mesh time step" % g, functions=["new_dt"]))
    adt, rec = absfold(dt, full)
    cour = readloc(e, st0, "CourNo", ())
    pre = [rcmp("<", R0, cour)]
    lim = []
    used = set()
    for g in ("GA", "GB"):
        for d in range(dim):
            dx = readloc(e, st0, g, ("dx%d" % (d + 1),))
            pre.append(rcmp("<", R0, dx))
            hit, why = None, ""
            for s, (rg, body) in rec.items():
                idx = ranges_ok(F, rg, rngs[g])
                if s in used or idx is None:
                    continue
                want, _ = speed(conf, dim, d, idx, e, g)
                dens = readloc(e, st0, g + ".U", tuple(idx) + ("d",))
                r = oblige("x", rsub(body, want), [rcmp("<", R0, dens), rcmp("<", R1, rsym("Gamma"))], gen=False)
                why = r["status"]
                if r["status"] == "proved":
                    hit = s
                    break
            if hit is None:
                return out + [R("unknown", "maximum not recognised on %s direction %d %s" % (g, d + 1, why), name="%s direction %d" % (g, d + 1))]
            used.add(hit)
            out.append(R("proved", name="%s direction %d: maximum of |v|+c over exactly the active cells" % (g, d + 1)))
            pre.append(rcmp("<", R0, hit))
            lim.append((g, d, rdiv(cour, rdiv(hit, dx))))
    for g, d, l in lim:
        nm = "dt does not exceed the Courant limit of any cell of %s in direction %d" % (g, d + 1)
        if le(adt, l):
            out.append(R("proved", name=nm))
        else:
            out.append(oblige(nm, ite(rcmp("<", l, adt), R1, R0), pre, gen=False, budget=40))
    return out


def jobs(tier="quick"):
    s = harn.seed()
    A = [[8, 1, 1, s, 1], [8, 6, 1, s + 1, 1], [6, 5, 7, s + 2, 1]]
    S = [[8, 1, 1, s, 2], [8, 8, 1, s + 1, 2], [8, 8, 8, s + 2, 2]]
    J = [("dt.c", dict(GAS=g, EOS=e), (), A) for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL")]
    J += [("dt.c", dict(GAS=g, EOS=e, MESH_REFINEMENT="STATIC_MESH_REFINEMENT"), (), S) for g, e in (("HYDRO", "ADIABATIC"), ("MHD", "ISOTHERMAL"))]
    J += [("dt.c", dict(GAS="HYDRO", PARTICLES_ALGORITHM="PARTICLES"), (), A), ("dt.c", dict(GAS="HYDRO", COORD="CYLINDRICAL"), (), A),
          ("dt.c", dict(GAS="MHD", COORD="CYLINDRICAL"), (), A),
          ("dt.c", dict(GAS="HYDRO", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX", ACCURACY="SECOND_ORDER_PRIM", INTEGRATOR_DEF="VL_INTEGRATOR"), (), A)]
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
