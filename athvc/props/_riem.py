"""Riemann solvers: shared set-up"""
from ..fncase import *

FILES = {"ROE_FLUX": ["roe.c", "esystem_roe.c"], "HLLE_FLUX": ["hlle.c", "esystem_roe.c"], "HLLC_FLUX": ["hllc.c", "esystem_roe.c"],
         "HLLD_FLUX": ["hlld.c"], "FORCE_FLUX": ["force.c", "esystem_roe.c"], "TWO_SHOCK_FLUX": ["two_shock.c"], "EXACT_FLUX": ["exact.c"]}
NEWT = [(f, g, e) for f in ("ROE_FLUX", "HLLE_FLUX", "FORCE_FLUX") for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL")] + \
       [("HLLC_FLUX", "HYDRO", "ADIABATIC"), ("HLLC_FLUX", "HYDRO", "ISOTHERMAL"), ("HLLD_FLUX", "MHD", "ADIABATIC"), ("HLLD_FLUX", "MHD", "ISOTHERMAL"),
        ("EXACT_FLUX", "HYDRO", "ADIABATIC"), ("EXACT_FLUX", "HYDRO", "ISOTHERMAL"), ("TWO_SHOCK_FLUX", "HYDRO", "ISOTHERMAL")]
SR = [("HLLE_FLUX", "MHD"), ("HLLC_FLUX", "HYDRO"), ("HLLC_FLUX", "MHD"), ("HLLD_FLUX", "MHD")]


def conf(f, g, e, ns="1"):
    return dict(FLUX_DEF=f, GAS=g, EOS=e, NSCALARS=ns)


def srconf(f, g):
    return dict(FLUX_DEF=f, GAS=g, EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", INTEGRATOR_DEF="VL_INTEGRATOR",
                ACCURACY="SECOND_ORDER_PRIM")


def prog(c):
    return program(["rsolvers/" + f for f in FILES[c["FLUX_DEF"]]] + ["convert_var.c"], **c)


def flux(P, c, WL, WR, Bx, contracts=None):
    F, ft = symstruct(P, "Cons1D_s", "F0")
    UL, UR = phys_cons1d(P, WL, Bx, c), phys_cons1d(P, WR, Bx, c)
    r, o, e = call(P, "fluxes", [(UL, C1, "val"), (UR, C1, "val"), (WL, P1, "val"), (WR, P1, "val"), (Bx, REAL, "val"), (F, C1, "ptr")],
                   outs=(5,), contracts=contracts)
    return o[5].leaves


def pre2(c, *Ws):
    pre = []
    for W in Ws:
        pre += gas_pre(c, W)
        pre.append(rcmp("<=", rsym("d_MIN"), W.leaves[("d",)]))
    return pre


def esys_contract(n):
    """eigenvalues are arbitrary but ordered; the eigenmatrices are arbitrary"""
    def c(eng, st, args):
        for v, t in args:
            if isinstance(v, Ptr):
                for k in range(n):
                    obj, path, ty = eng.deref(Ptr(v.obj, v.path, iadd(v.off, iconst(k)), v.mode, v.ety), t, st)
                    eng.write(st, obj, path, ty, rsym("ev%d" % k))
                return None
        return None
    return c


def mirror(W):
    L = dict(W.leaves)
    L[("Vx",)] = rneg(L[("Vx",)])
    return SV(W.ty, L)


def swap(W):
    L = dict(W.leaves)
    for a, b in (("Vy", "Vz"), ("By", "Bz"), ("My", "Mz")):
        if (a,) in L:
            L[(a,)], L[(b,)] = L[(b,)], L[(a,)]
    return SV(W.ty, L)


def revy(W):
    L = {k: (rneg(v) if k[0] in ("Vy", "My", "By") else v) for k, v in W.leaves.items()}
    return SV(W.ty, L)


def fast(c, W, Bx):
    """fast (magneto)sonic speed"""
    L = W.leaves
    asq = sq(rsym("Iso_csound")) if c["EOS"] == "ISOTHERMAL" else rdiv(rmul(rsym("Gamma"), L[("P",)]), L[("d",)])
    if c["GAS"] != "MHD":
        return sqrt_(asq)
    s = radd(asq, rdiv(rsum(sq(Bx), sq(L[("By",)]), sq(L[("Bz",)])), L[("d",)]))
    return sqrt_(rmul(HALF, radd(s, sqrt_(rsub(sq(s), rprod(rconst(4), asq, rdiv(sq(Bx), L[("d",)])))))))
