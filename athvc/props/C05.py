"""Riemann solvers: reflection and exchange symmetry, contact waves"""
from ..runner import R
from ._riem import *
from .. import harn
from ..equiv import Canon, pathwise, Unsupported
from ..intprove import Facts

TITLE = "Riemann solvers treat both directions and both transverse components alike"
LEVEL = "proof"
BACKENDS = ["canonical forms with ordered sign-decision diagrams", "athvc polynomial normal form (exact rationals)", "z3 (branch feasibility)"]
ASSUMPTIONS = ["d > 0, P > 0, Gamma > 1, density floor d_MIN below both densities",
               "reflection for ROE/HLLD/EXACT and contact resolution: bounded (sampled)", "obligations named (no compared difference exactly zero) leave out ties such as a vanishing wave speed; those are sampled on the compiled code", "relativistic solvers: bounded (sampled on the compiled code)"]
LIMIT = dict(quick=240, thorough=900)
MPROVE = [("HLLE_FLUX", "HYDRO", "ADIABATIC"), ("HLLE_FLUX", "HYDRO", "ISOTHERMAL"), ("HLLE_FLUX", "MHD", "ADIABATIC"), ("HLLE_FLUX", "MHD", "ISOTHERMAL"),
          ("HLLC_FLUX", "HYDRO", "ISOTHERMAL"), ("TWO_SHOCK_FLUX", "HYDRO", "ISOTHERMAL")]


def tasks(tier):
    t = [("reflection %s %s %s" % x, "mirr", x) for x in NEWT if x[0] != "EXACT_FLUX"]
    t += [("exchange %s %s %s" % x, "exch", x) for x in NEWT]
    t += [("reversal %s %s %s" % x, "rev", x) for x in NEWT]
    return t


def two(f, g, e):
    c = conf(f, g, e)
    P = prog(c)
    WL, _ = symstruct(P, "Prim1D_s", "WL")
    WR, _ = symstruct(P, "Prim1D_s", "WR")
    return c, P, WL, WR, rsym("Bx")


def positive(key):
    if key[0] == "app" and key[1] == "sqrt":
        return 1
    if key[0] == "sym" and (key[1].endswith((".d", ".P")) or key[1] in ("Gamma", "Gamma_1", "Iso_csound", "d_MIN")):
        return 2
    return 0


def canon(F, subst, ties):
    """canonical forms of the flux components for the given and for the transformed states"""
    C = Canon(Facts(()))
    C.ties = ties

    def mk(f):
        def sym(n):
            m, s = f(n)
            return C.scale(C.of(C.atom(("sym", m))), s)

        def leaf(n, i):
            raise Unsupported("array value " + n)
        return C.evaluator(leaf, sym)
    v0, v1 = mk(lambda n: (n, 1)), mk(subst)
    return C, {k: v0(F[k]) for k in F}, {k: v1(F[k]) for k in F}


def symmetry(what, f, g, e, subst, image, prove):
    """F(transformed states) = transformed F; image(k) -> (component, sign)"""
    c, P, WL, WR, Bx = two(f, g, e)
    F = flux(P, c, WL, WR, Bx)
    left = dict.fromkeys(F)
    out = []
    if (f, e) != ("EXACT_FLUX", "ISOTHERMAL"):
        for ties in (True, False):
            if not left:
                break
            try:
                C, A, B = canon(F, subst, ties)
            except Unsupported:
                break
            for k in list(left):
                kk, sg = image(k)
                b = C.scale(A[kk], sg)
                ok = B[k] == b or (not ties and k not in prove and pathwise(C, B[k], b, positive, 10.0) is True)
                if ok and not (not ties and k in prove):
                    del left[k]
                    out.append(R("proved", name="%s: %s%s" % (what, ".".join(k), "" if ties else " (no compared difference exactly zero)")))
    for k in left:
        kk, sg = image(k)
        c, P, WL, WR, Bx = two(f, g, e)
        L2 = {"WL": {}, "WR": {}}
        for side, W in (("WL", WL), ("WR", WR)):
            for suf in W.leaves:
                m, s = subst(side + "." + ".".join(suf))
                sd, _, rest = m.partition(".")
                v = {"WL": WL, "WR": WR}[sd].leaves[tuple(rest.split("."))]
                L2[side][suf] = v if s == 1 else rneg(v)
        M = flux(P, c, SV(WL.ty, L2["WL"]), SV(WR.ty, L2["WR"]), Bx if subst("Bx")[1] == 1 else rneg(Bx))
        x = rsub(M[k], F[kk]) if sg == 1 else radd(M[k], F[kk])
        out.append(oblige("%s: %s" % (what, ".".join(k)), x, pre2(c, WL, WR), weak=True, noproof=k not in prove, budget=60, tries=150))
    out[0]["functions"] = ["fluxes [%s %s %s]" % (f, g, e)]
    return out


SWC = {"Vy": "Vz", "Vz": "Vy", "By": "Bz", "Bz": "By", "My": "Mz", "Mz": "My"}


def comps(f, g, e):
    return [(x,) for x in ("d", "Mx", "My", "Mz", "E", "By", "Bz")] if (f, g, e) in MPROVE else []


def mirr(f, g, e):
    def sub(n):
        if n == "Bx":
            return n, -1
        a, _, b = n.partition(".")
        return ({"WL": "WR", "WR": "WL"}[a] + "." + b, -1 if b == "Vx" else 1) if a in ("WL", "WR") else (n, 1)
    return symmetry("reflected states give the reflected flux", f, g, e, sub, lambda k: (k, 1 if k == ("Mx",) else -1), comps(f, g, e))


def exch(f, g, e):
    def sub(n):
        a, _, b = n.partition(".")
        return (a + "." + SWC.get(b, b) if b else n), 1
    return symmetry("exchanged transverse components", f, g, e, sub, lambda k: ((SWC.get(k[0], k[0]),) + k[1:], 1), [])


def rev(f, g, e):
    return symmetry("reversed transverse component", f, g, e, lambda n: (n, -1 if n.partition(".")[2] in ("Vy", "By") else 1),
                    lambda k: (k, -1 if k[0] in ("My", "By") else 1), [])


def jobs():
    s = harn.seed()
    js = [("riemann.c", conf(*x), (), [[s, 300, 2]]) for x in NEWT]
    js += [("riemann.c", srconf(*x), (), [[s, 300, 2]]) for x in SR]
    return js


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
