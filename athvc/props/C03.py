"""conserved/primitive conversions and the fast speed"""
from ..runner import R
from ..fncase import *
from .. import harn
import itertools

TITLE = "conversions between conserved and primitive variables are exact inverses with the standard definitions"
LEVEL = "proof"
BACKENDS = ["athvc polynomial normal form (exact rationals)", "z3 nlsat (branch feasibility)"]
ASSUMPTIONS = ["Gamma_1 = Gamma-1, Iso_csound2 = Iso_csound^2 (set in main.c)", "density > 0, Gamma > 1, pressure not below the code's floor TINY_NUMBER",
               "the iterative special-relativistic inversion is only covered by the bounded companion run"]


def confs():
    return [dict(GAS=g, EOS=e, NSCALARS=n) for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL") for n in ("0", "2")]


def tasks(tier):
    t = [("newtonian " + " ".join(sorted(c.values())), "newt", (c,)) for c in confs()]
    t += [("relativistic " + g, "sr", (dict(GAS=g, EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY"),)) for g in ("HYDRO", "MHD")]
    return t


V3 = {"Vx": "V1", "Vy": "V2", "Vz": "V3"}
M3 = {"Mx": "M1", "My": "M2", "Mz": "M3"}
B3 = {"By": "B2c", "Bz": "B3c"}


def ren(k, t):
    return (t.get(k[0], k[0]),) + k[1:]


def newt(conf):
    P = program(["convert_var.c"], **conf)
    W, wt = symstruct(P, "Prim1D_s", "W")
    Bx = rsym("Bx")
    mhd = conf["GAS"] == "MHD"
    pre = gas_pre(conf, W)
    out = []
    U, _, e1 = call(P, "Prim1D_to_Cons1D", [(W, P1, "ptr"), (Bx, REAL, "ptr")])
    D = phys_cons1d(P, W, Bx, conf)
    if set(U.leaves) != set(D.leaves):
        return [R("unknown", "unexpected fields %s" % sorted(U.leaves))]
    for k in U.leaves:
        out.append(oblige("Prim1D_to_Cons1D defines %s" % ".".join(k), rsub(U.leaves[k], D.leaves[k]), pre))
    W2, _, e2 = call(P, "Cons1D_to_Prim1D", [(D, C1, "ptr"), (Bx, REAL, "ptr")])
    for k in W.leaves:
        out.append(oblige("round trip W->U->W %s" % ".".join(k), rsub(W2.leaves[k], W.leaves[k]), pre))
    # U -> W -> U
    Us, _ = symstruct(P, "Cons1D_s", "U")
    W3, _, _ = call(P, "Cons1D_to_Prim1D", [(Us, C1, "ptr"), (Bx, REAL, "ptr")])
    U3, _, _ = call(P, "Prim1D_to_Cons1D", [(W3, P1, "ptr"), (Bx, REAL, "ptr")])
    pre3 = [rcmp("<", R0, Us.leaves[("d",)])]
    if conf["EOS"] == "ADIABATIC":
        L = Us.leaves
        eint = rsub(L[("E",)], rdiv(rmul(HALF, rsum(sq(L[("Mx",)]), sq(L[("My",)]), sq(L[("Mz",)]))), L[("d",)]))
        if mhd:
            eint = rsub(eint, rmul(HALF, rsum(sq(Bx), sq(L[("By",)]), sq(L[("Bz",)]))))
        pr = rmul(rsub(rsym("Gamma"), R1), eint)
        pre3 += [rcmp("<", R1, rsym("Gamma")), rcmp("<=", TINY, pr)]
        # the floor: pressure returned is never below TINY_NUMBER and never below the exact value
        x = rsub(W3.leaves[("P",)], ite(rcmp("<", TINY, pr), pr, TINY))
        out.append(oblige("pressure = max(exact, floor)", x, pre3[:2]))
    for k in Us.leaves:
        out.append(oblige("round trip U->W->U %s" % ".".join(k), rsub(U3.leaves[k], Us.leaves[k]), pre3))
    # 3D wrappers agree with the 1D functions
    CS, PS = CT("struct", "Cons_s"), CT("struct", "Prim_s")
    w3, _ = symstruct(P, "Prim_s", "Q")
    m = {}
    for k in W.leaves:
        m[W.leaves[k]] = w3.leaves[ren(k, dict(V3, **B3))]
    if mhd:
        m[Bx] = w3.leaves[("B1c",)]
    U4, _, e4 = call(P, "Prim_to_Cons", [(w3, PS, "ptr")])
    prew = [replace(c, m) for c in pre]
    for k in D.leaves:
        out.append(oblige("Prim_to_Cons %s" % ".".join(k), rsub(U4.leaves[ren(k, dict(M3, **B3))], replace(D.leaves[k], m)), prew))
    if mhd:
        out.append(oblige("Prim_to_Cons B1c", rsub(U4.leaves[("B1c",)], w3.leaves[("B1c",)])))
    ul = {ren(k, dict(M3, **B3)): replace(v, m) for k, v in D.leaves.items()}
    if mhd:
        ul[("B1c",)] = m[Bx]
    W5, _, e5 = call(P, "Cons_to_Prim", [(SV(CS, ul), CS, "ptr")])
    for k in w3.leaves:
        out.append(oblige("Cons_to_Prim of the wrapper %s" % ".".join(k), rsub(W5.leaves[k], w3.leaves[k]), prew))
    # fast magnetosonic speed
    asq = sq(rsym("Iso_csound")) if conf["EOS"] == "ISOTHERMAL" else rdiv(rmul(rsym("Gamma"), W.leaves[("P",)]), W.leaves[("d",)])
    if mhd:
        bsq = rdiv(rsum(sq(Bx), sq(W.leaves[("By",)]), sq(W.leaves[("Bz",)])), W.leaves[("d",)])
        ca2 = rdiv(sq(Bx), W.leaves[("d",)])
        s = radd(asq, bsq)
        cf2 = rmul(HALF, radd(s, sqrt_(rsub(sq(s), rprod(rconst(4), asq, ca2)))))
    else:
        cf2 = asq
    c1, _, e6 = call(P, "cfast_prim", [(W, P1, "ptr"), (Bx, REAL, "ptr")])
    c2, _, e7 = call(P, "cfast", [(D, C1, "ptr"), (Bx, REAL, "ptr")])
    out.append(oblige("cfast_prim is the fast speed", rsub(c1, sqrt_(cf2)), pre))
    out.append(oblige("cfast is the fast speed", rsub(c2, sqrt_(cf2)), pre))
    out[0]["functions"] = ["Prim1D_to_Cons1D", "Cons1D_to_Prim1D", "Prim_to_Cons", "Cons_to_Prim", "cfast_prim", "cfast"]
    return out


def sr(conf):
    """relativistic definitions of the conserved variables"""
    P = program(["convert_var.c"], **conf)
    W, wt = symstruct(P, "Prim1D_s", "W")
    Bx = rsym("Bx")
    L = W.leaves
    mhd = conf["GAS"] == "MHD"
    g = rsym("Gamma")
    v = [L[("V" + a,)] for a in "xyz"]
    B = [Bx, L[("By",)], L[("Bz",)]] if mhd else [R0, R0, R0]
    vsq = rsum(*[sq(x) for x in v])
    lor2 = rdiv(R1, rsub(R1, vsq))
    h = radd(L[("d",)], rmul(rdiv(g, rsub(g, R1)), L[("P",)]))
    Bsq = rsum(*[sq(x) for x in B])
    vB = rsum(*[rmul(a, b) for a, b in zip(v, B)])
    D = {("d",): rmul(L[("d",)], sqrt_(lor2))}
    for n, a in enumerate("xyz"):
        D[("M" + a,)] = rsub(rmul(radd(rmul(h, lor2), Bsq), v[n]), rmul(vB, B[n]))
    D[("E",)] = rsum(rmul(h, lor2), rneg(L[("P",)]), rmul(HALF, rmul(Bsq, radd(R1, vsq))), rneg(rmul(HALF, sq(vB))))
    if mhd:
        D[("By",)] = B[1]
        D[("Bz",)] = B[2]
    U, _, e = call(P, "Prim1D_to_Cons1D", [(W, P1, "ptr"), (Bx, REAL, "ptr")])
    pre = [rcmp("<", R0, L[("d",)]), rcmp("<", vsq, R1), rcmp("<", R1, g)]
    out = [oblige("relativistic %s" % ".".join(k), rsub(U.leaves[k], D[k]), pre) for k in U.leaves]
    out[0]["functions"] = ["Prim1D_to_Cons1D (special relativity)"]
    return out


def jobs():
    s = harn.seed()
    js = [("convert.c", dict(c), (), [[s + n, 400]]) for n, c in enumerate(confs())]
    for g in ("HYDRO", "MHD"):
        js.append(("convert.c", dict(GAS=g, EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", INTEGRATOR_DEF="VL_INTEGRATOR",
                                     ACCURACY="SECOND_ORDER_PRIM", FLUX_DEF="HLLE_FLUX" if g == "MHD" else "HLLC_FLUX"), (), [[s, 400]]))
    return js


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
