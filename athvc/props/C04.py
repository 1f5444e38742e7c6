"""Riemann solvers: consistency, upwinding, HLL average, scalars"""
from ..runner import R
from ._riem import *
from .. import harn

TITLE = "Riemann solvers are consistent and upwind"
LEVEL = "proof"
BACKENDS = ["athvc polynomial normal form (exact rationals)", "z3 (branch feasibility)"]
ASSUMPTIONS = ["d > 0, P > 0, Gamma > 1, density floor d_MIN below both densities", "square roots are generalised to arbitrary non-negative values where possible",
               "EXACT_FLUX adiabatic and the relativistic solvers: bounded (sampled on the compiled code)",
               "the upwinding obligations use the contract of esys_roe_*: ordered eigenvalues, arbitrary eigenvectors"]
LIMIT = dict(quick=200, thorough=900)


def tasks(tier):
    t = [("consistency %s %s %s" % x, "consist", x) for x in NEWT]
    t += [("scalar flux %s %s %s" % x, "scalar", x) for x in NEWT]
    t += [("upwind %s %s %s" % x, "upwind", x) for x in NEWT if x[0] in ("ROE_FLUX", "HLLE_FLUX", "HLLC_FLUX")]
    t += [("HLL average %s %s %s" % x, "hll", x) for x in NEWT if x[0] == "HLLE_FLUX"]
    return t


def consist(f, g, e):
    c = conf(f, g, e)
    P = prog(c)
    W, wt = symstruct(P, "Prim1D_s", "W")
    Bx = rsym("Bx")
    F = flux(P, c, W, W, Bx)
    D = phys_flux1d(P, W, Bx, c).leaves
    out = [oblige("F(U,U) = F(U): %s" % ".".join(k), rsub(F[k], D[k]), pre2(c, W), weak=True, budget=25, z3ms=1500, noproof=(f == "EXACT_FLUX" and e == "ADIABATIC")) for k in F]
    if set(F) != set(D):
        out.append(R("unknown", "flux components %s" % sorted(F)))
    out[0]["functions"] = ["fluxes [%s %s %s]" % (f, g, e)] + (["esys_roe_*"] if f in ("ROE_FLUX", "HLLE_FLUX", "HLLC_FLUX", "FORCE_FLUX") else [])
    return out


def two(f, g, e):
    c = conf(f, g, e)
    P = prog(c)
    WL, _ = symstruct(P, "Prim1D_s", "WL")
    WR, _ = symstruct(P, "Prim1D_s", "WR")
    return c, P, WL, WR, rsym("Bx")


def scalar(f, g, e):
    c, P, WL, WR, Bx = two(f, g, e)
    F = flux(P, c, WL, WR, Bx)
    k, r = ("s", "#0"), ("r", "#0")
    a, b = rmul(F[("d",)], WL.leaves[r]), rmul(F[("d",)], WR.leaves[r])
    hard = f in ("ROE_FLUX", "EXACT_FLUX")
    if f in ("ROE_FLUX", "TWO_SHOCK_FLUX", "EXACT_FLUX", "FORCE_FLUX"):
        # early returns take the scalar of the side whose flux is returned
        x = rmul(rsub(F[k], a), rsub(F[k], b))
    else:
        x = rsub(F[k], ite(rcmp("<=", R0, F[("d",)]), a, b))
    return [oblige("scalar flux = mass flux x upwind concentration", x, pre2(c, WL, WR), weak=True, noproof=hard, budget=60)]


NW = {("HYDRO", "ISOTHERMAL"): 4, ("HYDRO", "ADIABATIC"): 5, ("MHD", "ISOTHERMAL"): 6, ("MHD", "ADIABATIC"): 7}


def upwind(f, g, e):
    c, P, WL, WR, Bx = two(f, g, e)
    n = NW[(g, e)]
    con = {"esys_roe_%s_%s" % (a, b): esys_contract(n) for a in ("adb", "iso") for b in ("hyd", "mhd")}
    F = flux(P, c, WL, WR, Bx, con if f in ("ROE_FLUX", "HLLE_FLUX", "HLLC_FLUX") else None)
    out = []
    for side, W in (("L", WL), ("R", WR)):
        D = phys_flux1d(P, W, Bx, c).leaves
        pre = pre2(c, WL, WR)
        cl, cr = fast(c, WL, Bx), fast(c, WR, Bx)
        vl, vr = WL.leaves[("Vx",)], WR.leaves[("Vx",)]
        ex = dict()
        if side == "L":
            pre += [rcmp("<", cl, vl), rcmp("<", cr, vr)]
            pre += [rcmp("<", R0, rsym("ev0"))]
        else:
            pre += [rcmp("<", vl, rneg(cl)), rcmp("<", vr, rneg(cr))]
            pre += [rcmp("<", rsym("ev%d" % (n - 1)), R0)]
        pre += [rcmp("<", rsym("ev%d" % k), rsym("ev%d" % (k + 1))) for k in range(n - 1)]
        for k in F:
            out.append(oblige("supersonic from %s: %s" % (side, ".".join(k)), rsub(F[k], D[k]), pre, weak=True, budget=30, tries=120, z3ms=1500))
    return out


def hll(f, g, e):
    """HLLE = HLL average of the two physical fluxes with speeds bounding the Roe and end-state signal speeds"""
    c, P, WL, WR, Bx = two(f, g, e)
    n = NW[(g, e)]
    con = {"esys_roe_%s_%s" % (a, b): esys_contract(n) for a in ("adb", "iso") for b in ("hyd", "mhd")}
    F = flux(P, c, WL, WR, Bx, con)
    mx = lambda a, b: ite(rcmp("<", b, a), a, b)
    mn = lambda a, b: ite(rcmp("<", a, b), a, b)
    cl, cr = fast(c, WL, Bx), fast(c, WR, Bx)
    bp = mx(mx(rsym("ev%d" % (n - 1)), radd(WR.leaves[("Vx",)], cr)), R0)
    bm = mn(mn(rsym("ev0"), rsub(WL.leaves[("Vx",)], cl)), R0)
    pre = pre2(c, WL, WR) + [rcmp("<", rsym("ev%d" % k), rsym("ev%d" % (k + 1))) for k in range(n - 1)]
    FL, FR = phys_flux1d(P, WL, Bx, c).leaves, phys_flux1d(P, WR, Bx, c).leaves
    UL, UR = phys_cons1d(P, WL, Bx, c).leaves, phys_cons1d(P, WR, Bx, c).leaves
    out = []
    for k in F:
        if k[0] == "s":
            continue
        h = rdiv(rsum(rmul(bp, FL[k]), rneg(rmul(bm, FR[k])), rprod(bp, bm, rsub(UR[k], UL[k]))), rsub(bp, bm))
        out.append(oblige("HLL average: %s" % ".".join(k), rsub(F[k], h), pre, weak=True, budget=40, z3ms=1500))
    return out


def jobs():
    s = harn.seed()
    js = [("riemann.c", conf(*x), (), [[s, 300]]) for x in NEWT]
    js += [("riemann.c", srconf(*x), (), [[s, 300]]) for x in SR]
    return js


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
