"""mesh refinement: prolongation operators (proved); restriction, flux correction and ghost filling on whole meshes (bounded)"""
import os
from ..fncase import *
from ..runner import R
from .. import harn
TITLE = "Mesh refinement conserves totals, keeps div B zero and levels consistent"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["exact real arithmetic",
               "the limited slope is used through its contract (mirror-odd, exact for equal differences), itself proved from its body",
               "a fine face field of exactly zero means 'not set yet' to the prolongation (documented in the code): fine boundary values are assumed nonzero",
               "the exchange of data between levels, restriction and flux correction are bounded: compiled code on small nested meshes with smooth random data"]
BACKENDS = ["polynomial normal form (exact rationals)", "z3 (branch feasibility)", "compiled code on nested meshes (bounded)"]
SPEC = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + "/spec/smr.c"
CS = CT("struct", "Cons_s")


def confs():
    return [dict(GAS=g, EOS=e, NSCALARS="1", MESH_REFINEMENT="STATIC_MESH_REFINEMENT", ACCURACY=a)
            for g, e in (("MHD", "ADIABATIC"), ("MHD", "ISOTHERMAL"), ("HYDRO", "ADIABATIC"), ("HYDRO", "ISOTHERMAL")) for a in ("THIRD_ORDER_CHAR", "FIRST_ORDER")]


def tasks(tier):
    t = [("slope limiter", "slope", ())]
    for c in confs():
        nm = " ".join((c["GAS"], c["EOS"], c["ACCURACY"]))
        t.append((nm + " cells", "cells", (c,)))
        if c["GAS"] == "MHD" and c["EOS"] == "ADIABATIC":
            t.append((nm + " faces", "faces", (c,)))
            t.append((nm + " faces relabelled", "facesym", (c,)))
    return t


def mcd(eng, st, args):
    """contract of the limited slope: a mirror-odd function of the two differences"""
    vl, vc, vr = (a for a, _ in args)
    l, r = rsub(vc, vl), rsub(vr, vc)
    if l is r:
        return l
    ks = sorted((l, r), key=lambda t: t.id)
    return app("mcd", ks)


def mcd_lin(eng, st, args):
    vl, vc, vr = (a for a, _ in args)
    x = rsub(rsub(vc, vl), rsub(vr, vc))
    c = prove_zero(x, [], tries=0, budget=20)
    if c.status != "proved":
        return app("mcd", [vl, vc, vr])
    return rmul(HALF, rsub(vr, vl))


def engine(conf, con):
    P = program(["smr.c", SPEC], **conf)
    return P, Engine(P, (), {"mcd_slope": con} if "mcd_slope" in P.funcs else {}, GASVALS)


def go(conf, fn, args, n, con=mcd):
    P, e = engine(conf, con)
    st = State({}, ())
    st, _ = run(e, fn, args + [(Ptr("o", (), I0, "arr"), ptr(REAL))], st)
    return [rdl(e, st, "o", (iconst(i),), REAL) for i in range(n)]


def arr(nm):
    return (Ptr(nm, (), I0, "arr"), ptr(REAL))


DX = [(rsym("d%d" % a), REAL) for a in (1, 2, 3)]
DPOS = [rcmp("<", R0, rsym("d%d" % a)) for a in (1, 2, 3)]


def many(out, nm, xs, pre):
    for k, x in enumerate(xs):
        out.append(oblige("%s [%d]" % (nm, k), x, pre, budget=30, z3ms=1500))


def faces(conf):
    out = []
    for two in (0, 1):
        for f in range(-1, 6 if not two else 4):
            pre = list(DPOS)
            if f >= 0:
                pre.append(bnot(rcmp("==", app_read("p", 0), R0)))
            xs = go(conf, "spec_profld", [(iconst(f), INT), (iconst(two), INT), arr("b"), arr("p")] + DX, 18)
            nm = ("2D data, " if two else "") + ("no face set" if f < 0 else "face %d already set" % f)
            many(out, nm + ": divergence of every fine cell is that of the block", xs[:8], pre)
            many(out, nm + ": fine faces average to the coarse face / keep their value", xs[8:14], pre)
            if f >= 0:
                many(out, nm + ": values already set are kept", xs[14:], pre)
    xs = go(conf, "spec_prolin", [arr("q")] + DX, 36, con=mcd_lin)
    if conf["ACCURACY"] != "FIRST_ORDER":
        many(out, "linear field: fine faces hold the linear function", xs, DPOS + [])
    return out


def app_read(nm, k):
    P, e = engine(confs()[0], mcd)
    return rdl(e, State({}, ()), nm, (iconst(k),), REAL)


def facesym(conf):
    out = []
    for how in (1, 2):
        xs = go(conf, "spec_properm", [(iconst(how), INT), arr("b")] + DX, 36)
        many(out, "axes %s: same result" % ("cycled" if how == 1 else "exchanged"), xs, DPOS)
    return out


def states(P):
    S = []
    for n in "abcdefg":
        S.append((SV(CS, {suf: rsym("%s.%s" % (n, ".".join(map(str, suf)))) for suf, _ in P.leaves(CS)}), CS))
    return S


def cells(conf):
    out = []
    P, _ = engine(conf, mcd)
    S = states(P)
    pre = [rcmp("<", R0, s.leaves[("d",)]) for s, _ in S]
    for k, x in enumerate(go(conf, "spec_procon", S, 9)):
        out.append(oblige("component %d: mean of the fine cells is the coarse value" % k, x, pre, budget=30, z3ms=1500))
    for how in (1, 2):
        many(out, "axes %s: same fine cells" % ("cycled" if how == 1 else "exchanged"), go(conf, "spec_proconperm", [(iconst(how), INT)] + S, 72), pre)
    if conf["ACCURACY"] != "FIRST_ORDER":
        q = [app_read("q", k) for k in range(36)]
        xs = go(conf, "spec_proconlin", [arr("q")], 72, con=mcd_lin)
        many(out, "linear data: fine cells hold the linear function", xs, [])
    return out


def slope():
    P = program(["smr.c"], GAS="HYDRO", EOS="ADIABATIC", NSCALARS="0", MESH_REFINEMENT="STATIC_MESH_REFINEMENT")
    if "mcd_slope" not in P.funcs:
        return []
    out = []
    a, b, c, k = rsym("A"), rsym("B"), rsym("C"), rsym("K")
    f = lambda x, y, z: call(P, "mcd_slope", [(x, REAL, "val"), (y, REAL, "val"), (z, REAL, "val")])[0]
    out.append(oblige("slope odd under mirror reflection", radd(f(a, b, c), f(c, b, a)), budget=30))
    out.append(oblige("slope independent of an added constant", rsub(f(a, b, c), f(radd(a, k), radd(b, k), radd(c, k))), budget=30))
    out.append(oblige("slope exact for equal differences", rsub(f(rsub(b, a), b, radd(b, a)), a), budget=30))
    d = rsym("D")
    pos = [rcmp("<=", R0, a), rcmp("<=", R0, c)]
    out.append(oblige("slope zero at an extremum", f(rsub(b, a), b, rsub(b, c)), pos, budget=30))
    out.append(oblige("slope zero at a minimum", f(radd(b, a), b, radd(b, c)), pos, budget=30))
    s = f(rsub(b, a), b, radd(b, c))
    over = lambda x: ite(rcmp("<", R0, x), x, R0)
    out.append(oblige("slope not negative for rising data", over(rneg(s)), pos, budget=30))
    out.append(oblige("fine values do not pass the lower neighbour", over(rsub(s, rmul(rconst(2), a))), pos, budget=30))
    out.append(oblige("fine values do not pass the upper neighbour", over(rsub(s, rmul(rconst(2), c))), pos, budget=30))
    return out


L2 = ["16 12 1 1,16,12,1,8,6,0", "16 16 1 1,20,20,1,6,6,0 2,16,16,1,24,24,0", "16 16 1 1,10,8,1,4,4,0 1,8,12,1,18,14,0", "16 12 1 1,12,24,1,8,0,0", "16 12 1 1,32,12,1,0,6,0"]
L1 = ["16 1 1 1,16,1,1,8,0,0", "16 1 1 1,20,1,1,6,0,0 2,16,1,1,24,0,0"]
L3 = ["12 12 12 1,12,12,12,6,6,6", "12 12 12 1,12,12,24,6,6,0", "12 12 12 1,24,12,12,0,6,6"]


def jobs():
    s = harn.seed()
    VL = dict(INTEGRATOR_DEF="VL_INTEGRATOR", ACCURACY="SECOND_ORDER_PRIM")
    J = []
    for c in (dict(GAS="MHD", EOS="ADIABATIC", NSCALARS="1"), dict(VL, GAS="MHD", EOS="ISOTHERMAL"), dict(VL, GAS="HYDRO", EOS="ADIABATIC", NSCALARS="1"),
              dict(GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="1"), dict(GAS="MHD", EOS="ISOTHERMAL", NSCALARS="1", ACCURACY="SECOND_ORDER_PRIM"),
              dict(VL, GAS="MHD", EOS="ADIABATIC", NSCALARS="1"),
              dict(VL, GAS="MHD", EOS="ADIABATIC", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX"),
              dict(VL, GAS="HYDRO", EOS="ADIABATIC", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX")):
        c = dict(c, MESH_REFINEMENT="STATIC_MESH_REFINEMENT")
        runs = [[s + n, 3 if x in L1 else 2 if x in L2 else 1, 0] + x.split() for n, x in enumerate(L1 + L2 + L3)]
        runs += [[s, 2, 1] + x.split() for x in (L1[1], L2[1])] + [[s, 1, 1] + L3[0].split()]
        J.append(("smr.c", c, (), runs))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
