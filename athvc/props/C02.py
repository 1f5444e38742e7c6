"""constrained transport: div B of every cell is unchanged; cell-centred B is the face average"""
from ..runner import R
from ..integ import *
from ..intprove import consistent
from .. import harn
from ._integ import configs, name, realconf, DIMN
import z3

TITLE = "div B of every cell is unchanged by a step and cell-centred B is the face average"
LEVEL = "proof"
ASSUMPTIONS = [
    "contract of fluxes(): writes *pFlux only, as a function of its arguments",
    "contract of lr_states(): writes Wl[], Wr[] only (contents arbitrary)",
    "grid bounds is=nghost, ie=is+Nx-1 and Nx>=4 in active directions (contract of init_grid)",
]


def tasks(tier):
    return [(name(*c), "check", c) for c in configs(tier, gases=("MHD",))] + [(name(*c), "check", c) for c in sr(tier)]


def sr(tier):
    return [(dim, "vl_sr", dict(GAS="MHD", EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY")) for dim in (1, 2, 3)]


def check(dim, integ, conf):
    e, st = run_integrator(dim, integ, **conf)
    side = e.stats["disjoint"] + e.stats["membership"] + e.stats["head_resolved"]
    out = [R("proved", obligations=side, name="loop-frame side conditions", functions=sorted(e.stats["inlined"]),
             assumed=sorted(e.stats["contract_calls"]))]
    for fx in (cases(dim) if dim > 1 else [()]):
        ix, iv, F = cell(e, dim, fx)
        if consistent(F) != z3.sat:
            return [R("unknown", "inconsistent preconditions")]
        goals = []
        if dim > 1:
            goals.append(("div B", rsub(divB(e, st, ix, dim), divB(e, S0, ix, dim))))
            for n, (dk, dj, di) in (("1", (0, 0, 1)), ("2", (0, 1, 0)), ("3", (1, 0, 0)))[:dim]:
                goals.append(("B%sc = average of faces" % n, rsub(
                    readloc(e, st, "G.U", ix + ("B%sc" % n,)),
                    rmul(rconst("1/2"), radd(readloc(e, st, "G.B%si" % n, ix), readloc(e, st, "G.B%si" % n, at(ix, dk, dj, di)))))))
        else:
            goals.append(("B1c unchanged", rsub(readloc(e, st, "G.U", ix + ("B1c",)), readloc(e, S0, "G.U", ix + ("B1c",)))))
            goals.append(("B1i unchanged", rsub(readloc(e, st, "G.B1i", ix), readloc(e, S0, "G.B1i", ix))))
        for n in range(dim + 1, 4):
            if not integ.endswith("_sr"):
                goals.append(("B%dc = B%di" % (n, n), rsub(readloc(e, st, "G.U", ix + ("B%dc" % n,)), readloc(e, st, "G.B%di" % n, ix))))
        for nm, g in goals:
            ok, p, N = expand_zero(g, F=F, budget=40)
            nm = "%s %s" % ("/".join(fx), nm)
            if ok:
                out.append(R("proved", name=nm))
            else:
                out.append(R("failed" if ok is False else "unknown", "residual: " + (showp(p)[:1500] if isinstance(p, dict) else str(p)), name=nm))
                if ok is None and sum(r["status"] == "unknown" for r in out) > 3:
                    return out
    return out


def replay(tier, bad, unk):
    cs = {name(*c): c for c in configs("thorough") + sr("thorough")}
    jobs = []
    seen = set()
    for r in bad + unk:
        if r["task"] in seen or r["task"] not in cs:
            continue
        seen.add(r["task"])
        dim, integ, conf = cs[r["task"]]
        argv = []
        for N in DIMN[dim]:
            for s in (1, 2, 3):
                argv.append(list(N) + [s, 3, 2, 0.3])
        jobs.append(("conserve.c", realconf(integ.replace("_sr", ""), conf), (), argv))
    return harn.sweep(jobs)


def smoke(tier):
    jobs = []
    s = harn.seed()
    for n, (dim, integ, conf) in enumerate(configs("quick", gases=("MHD",))):
        if "MESH_REFINEMENT" in conf and tier == "quick":
            continue
        jobs.append(("conserve.c", realconf(integ, conf), (), [list(DIMN[d][0]) + [s + n, 3, 2, 0.3] for d in (1, 2, 3)]))
    uniq = {}
    for j in jobs:
        uniq[repr(j[1])] = j
    return harn.sweep(list(uniq.values()))
