"""cylindrical coordinates: volume-weighted conservation (mass, angular momentum, axial momentum, energy, scalars) and constrained transport"""
from ..runner import R
from ..integ import *
from ..intprove import consistent
from .. import harn
import z3

TITLE = "cylindrical grids conserve mass, angular momentum, energy and div B"
LEVEL = "proof"
ASSUMPTIONS = [
    "contract of fluxes(): writes *pFlux only, as a function of its arguments",
    "contract of lr_states(): writes Wl[], Wr[] only (contents arbitrary)",
    "grid bounds is=nghost, ie=is+Nx-1 and Nx>=4 in active directions (contract of init_grid)",
    "G.r, G.ri are the cell-centre and face radii and nonzero (contract of init_grid; exercised by the bounded runs)",
    "StaticGravPot, CoolingFunc and x1GravAcc not enrolled (gravity and cooling are other properties)",
    "the radial geometric source term and the accuracy in the radius are decided by bounded runs only",
]


def configs(tier):
    out = []
    for dim in (1, 2, 3):
        for integ in ("ctu", "vl"):
            for gas in ("HYDRO", "MHD"):
                for eos in ("ADIABATIC", "ISOTHERMAL"):
                    out.append((dim, integ, dict(GAS=gas, EOS=eos, NSCALARS="1", COORD="CYLINDRICAL")))
    return out


def name(dim, integ, conf):
    return "%dd_%s %s %s" % (dim, integ, conf["GAS"], conf["EOS"])


def tasks(tier):
    return [(name(*c), "check", c) for c in configs(tier)]


def divBc(e, s, ix, dim):
    """r * div B"""
    dx = [rsym("G.dx%d" % n) for n in (1, 2, 3)]
    ri = lambda di: readloc(e, S0, "G.ri", (iadd(ix[2], iconst(di)),))
    r = readloc(e, S0, "G.r", (ix[2],))
    v = rdiv(rsub(rmul(ri(1), readloc(e, s, "G.B1i", at(ix, di=1))), rmul(ri(0), readloc(e, s, "G.B1i", ix))), dx[0])
    if dim > 1:
        v = radd(v, rdiv(rsub(readloc(e, s, "G.B2i", at(ix, dj=1)), readloc(e, s, "G.B2i", ix)), dx[1]))
    if dim > 2:
        v = radd(v, rmul(r, rdiv(rsub(readloc(e, s, "G.B3i", at(ix, dk=1)), readloc(e, s, "G.B3i", ix)), dx[2])))
    return v


def check(dim, integ, conf):
    e, st = run_integrator(dim, integ, **conf)
    side = e.stats["disjoint"] + e.stats["membership"] + e.stats["head_resolved"]
    out = [R("proved", obligations=side, name="loop-frame side conditions", functions=sorted(e.stats["inlined"]),
             assumed=sorted(e.stats["contract_calls"]))]
    mhd = conf["GAS"] == "MHD"

    def add(ok, p, nm):
        if ok:
            out.append(R("proved", name=nm))
        else:
            out.append(R("failed" if ok is False else "unknown", "residual: " + (showp(p)[:1500] if isinstance(p, dict) else str(p)[:1500]), name=nm))

    ix, iv, F = cell(e, dim)
    if consistent(F) != z3.sat:
        return [R("unknown", "inconsistent preconditions")]
    r = readloc(e, S0, "G.r", (ix[2],))
    W = {"d": ("mass", r), "M2": ("angular momentum", rmul(r, r)), "M3": ("axial momentum", r), "E": ("energy", r)}
    for suf in leaf_cons(e.P):
        if suf[0] in ("M1", "Pflux") or (suf[0] in ("B1c", "B2c", "B3c") and int(suf[0][1]) <= dim):
            continue
        nm, wt = W.get(suf[0], (".".join(str(x) for x in suf), r))
        if suf[0] == "B2c":
            wt = R1
        d = rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
        ok, p, x = expand_conserved(rmul(wt, d), iv, F=F, budget=60)
        add(ok, p, "conserved: " + nm)
    for n in ("r", "ri"):
        d = rsub(readloc(e, st, "G." + n, (ix[2],)), readloc(e, S0, "G." + n, (ix[2],)))
        ok, p, _ = expand_zero(d, F=F, budget=20)
        add(ok, p, "radius %s unchanged" % n)
    if not mhd:
        return out
    for fx in (cases(dim) if dim > 1 else [()]):
        ix, iv, F = cell(e, dim, fx)
        r = readloc(e, S0, "G.r", (ix[2],))
        ri = [readloc(e, S0, "G.ri", (iadd(ix[2], iconst(k)),)) for k in (0, 1)]
        goals = []
        half = rconst("1/2")
        if dim > 1:
            goals.append(("div B", rsub(divBc(e, st, ix, dim), divBc(e, S0, ix, dim))))
            goals.append(("B1c = radius-weighted average of faces", rsub(
                rmul(r, readloc(e, st, "G.U", ix + ("B1c",))),
                rmul(half, radd(rmul(ri[0], readloc(e, st, "G.B1i", ix)), rmul(ri[1], readloc(e, st, "G.B1i", at(ix, di=1))))))))
            for n, (dk, dj, di) in (("2", (0, 1, 0)), ("3", (1, 0, 0)))[:dim - 1]:
                goals.append(("B%sc = average of faces" % n, rsub(
                    readloc(e, st, "G.U", ix + ("B%sc" % n,)),
                    rmul(half, radd(readloc(e, st, "G.B%si" % n, ix), readloc(e, st, "G.B%si" % n, at(ix, dk, dj, di)))))))
        else:
            goals.append(("B1c unchanged", rsub(readloc(e, st, "G.U", ix + ("B1c",)), readloc(e, S0, "G.U", ix + ("B1c",)))))
            goals.append(("B1i unchanged", rsub(readloc(e, st, "G.B1i", ix), readloc(e, S0, "G.B1i", ix))))
        for n in range(dim + 1, 4):
            goals.append(("B%dc = B%di" % (n, n), rsub(readloc(e, st, "G.U", ix + ("B%dc" % n,)), readloc(e, st, "G.B%di" % n, ix))))
        for nm, g in goals:
            ok, p, N = expand_zero(g, F=F, budget=40)
            add(ok, p, "%s %s" % ("/".join(fx), nm))
    return out


BACKENDS = ["polynomial normal form (exact rationals)", "z3 (index guards)", "compiled code on small grids (bounded)"]


def jobs(tier, full=False):
    js = []
    s0 = harn.seed()
    for gas in ("HYDRO", "MHD"):
        for eos in ("ADIABATIC", "ISOTHERMAL"):
            for integ, acc in (("CTU", "SECOND_ORDER_CHAR"), ("CTU", "THIRD_ORDER_CHAR"), ("VL", "SECOND_ORDER_PRIM"), ("VL", "THIRD_ORDER_PRIM")):
                fl = "HLLD_FLUX" if gas == "MHD" else "HLLC_FLUX" if eos == "ADIABATIC" else "HLLE_FLUX"
                if acc == "THIRD_ORDER_CHAR":
                    fl = "ROE_FLUX" if gas == "HYDRO" else "HLLE_FLUX"
                av = []
                for m in "cmder":
                    for N in (("24", "1", "1"), ("20", "12", "1"), ("16", "8", "8")):
                        if m in "de" and N[1] == "1":
                            continue
                        if m == "c":
                            N = (N[0] if N[2] == "1" else "20",) + N[1:]
                        for k in range(3 if full or tier == "thorough" else 2):
                            av.append([m, str(s0 + k)] + list(N))
                js.append(("cyl.c", dict(COORD="CYLINDRICAL", GAS=gas, EOS=eos, NSCALARS="1", ACCURACY=acc, INTEGRATOR_DEF=integ + "_INTEGRATOR", FLUX_DEF=fl), (), av))
    return js


def replay(tier, bad, unk):
    return harn.sweep(jobs(tier, True))


def smoke(tier):
    return harn.sweep(jobs(tier))
