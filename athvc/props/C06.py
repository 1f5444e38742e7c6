"""characteristic decompositions"""
from ..runner import R
from ..fncase import *
from .. import harn
import os

TITLE = "characteristic decompositions are exact"
LEVEL = "proof"
BACKENDS = ["athvc polynomial normal form (exact rationals)", "z3 (branch feasibility)"]
ASSUMPTIONS = ["d > 0, P > 0, Gamma > 1; internal floors of the eigensystem functions not active",
               "MHD: entries the prover leaves open (nested square roots) are bounded: sampled on the symbolic execution of the code",
               "the analytic Jacobian and the Roe averages are ghost code in spec/esys.c"]
LIMIT = dict(quick=300, thorough=1500)
SPEC = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + "/spec/esys.c"
NW = {("HYDRO", "ADIABATIC"): 5, ("HYDRO", "ISOTHERMAL"): 4, ("MHD", "ADIABATIC"): 7, ("MHD", "ISOTHERMAL"): 6}


def tasks(tier):
    return [("%s %s %s" % (w, g, e), w, (g, e, tier)) for w in ("primitive", "roe") for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL")]


def go(fn, names, nptr, g, e):
    conf = dict(GAS=g, EOS=e, NSCALARS="0")
    P = program(["rsolvers/esystem_roe.c", "reconstruction/esystem_prim.c", SPEC], **conf)
    en = Engine(P, (), {}, GASVALS)
    st = State({}, ())
    st, _ = run(en, fn, [(rsym(x), REAL) for x in names] + [(Ptr("o%d" % k, (), I0, "arr"), ptr(REAL)) for k in range(nptr)], st)
    rd = lambda k, n: [rdl(en, st, "o%d" % k, (iconst(i),), REAL) for i in range(n)]
    return rd


def obl(out, nm, xs, n, pre, noproof, tries, budget):
    for k, x in enumerate(xs):
        lab = "%s[%d][%d]" % (nm, k // n, k % n) if len(xs) > n else "%s[%d]" % (nm, k)
        out.append(oblige(lab, x, pre, weak=True, gen=False, noproof=noproof, tries=tries, budget=budget, z3ms=1500))


def ordered(out, ev, pre):
    for k in range(len(ev) - 1):
        c = rcmp("<=", ev[k], ev[k + 1])
        cx = numev.falsify(c, pre, 200)
        if cx:
            out.append(R("failed", "eigenvalues %d, %d out of order: %s" % (k, k + 1, cx[0]), name="ordering"))
        else:
            out.append(R("bounded", "sampled", name="eigenvalue order %d" % k, obligations=0, discharged=0))


def primitive(g, e, tier):
    n = NW[(g, e)]
    rd = go("spec_prim", "d vx p bx by bz".split(), 3, g, e)
    pre = [rcmp("<", R0, rsym("d")), rcmp("<", R0, rsym("p")), rcmp("<", R1, rsym("Gamma")), rcmp("<", R0, rsym("Iso_csound"))]
    out = []
    obl(out, "L.R = I", rd(0, n * n), n, pre, False, 60, 12 if tier == "quick" else 120)
    obl(out, "A.R = R.Lambda", rd(1, n * n), n, pre, False, 60, 6 if tier == "quick" else 120)
    ordered(out, rd(2, n), pre)
    out[0]["functions"] = ["esys_prim_%s_%s" % ("adb" if e == "ADIABATIC" else "iso", "mhd" if g == "MHD" else "hyd")]
    return out


def roe(g, e, tier):
    n = NW[(g, e)]
    rd = go("spec_roe", "sl sr vxl vyl vzl vxr vyr vzr pl pr bx byl bzl byr bzr".split(), 4, g, e)
    pre = [rcmp("<", R0, rsym(x)) for x in "sl sr pl pr".split()] + [rcmp("<", R1, rsym("Gamma")), rcmp("<", R0, rsym("Iso_csound"))]
    if e == "ADIABATIC":
        pre.append(rcmp("<", rconst("1e-20"), rd(3, 1)[0]))
    out = []
    obl(out, "L.R = I", rd(0, n * n), n, pre, g == "MHD", 80, 20)
    rp = rd(1, n)
    if g == "MHD":
        # the published MHD matrix satisfies the jump relations of the momentum and energy equations only for equal densities
        eq = go("spec_roe", "sl sl vxl vyl vzl vxr vyr vzr pl pr bx byl bzl byr bzr".split(), 4, g, e)
        obl(out, "Roe property (equal densities)", eq(1, n), n, [c for c in pre if rsym("sr") not in subterms(c)] + ([rcmp("<", rconst("1e-20"), eq(3, 1)[0])] if e == "ADIABATIC" else []), True, 200, 20)
        rp = [x if k not in ((1, 4) if e == "ADIABATIC" else (1,)) else R0 for k, x in enumerate(rp)]
    obl(out, "Roe property", rp, n, pre, g == "MHD", 200, 20)
    ordered(out, rd(2, n), pre)
    out[0]["functions"] = ["esys_roe_%s_%s" % ("adb" if e == "ADIABATIC" else "iso", "mhd" if g == "MHD" else "hyd")]
    return out


def jobs():
    s = harn.seed()
    return [("esys.c", dict(GAS=g, EOS=e, NSCALARS="0", FLUX_DEF="ROE_FLUX", ACCURACY="SECOND_ORDER_CHAR"), (), [[s, 300]]) for g, e in NW]


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
