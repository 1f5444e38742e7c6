"""conservation: every interface flux enters the two neighbouring cells with opposite sign"""
from ..runner import R
from ..integ import *
from ..intprove import consistent
from .. import harn
from ._integ import configs, name, realconf, DIMN
import z3

TITLE = "one step changes each cell only by differences of shared interface fluxes (conservation)"
LEVEL = "proof"
ASSUMPTIONS = [
    "contract of fluxes(): writes *pFlux only, as a function of its arguments (any function: no property of the solver is used)",
    "contract of lr_states(): writes Wl[], Wr[] only (contents arbitrary)",
    "grid bounds is=nghost, ie=is+Nx-1 and Nx>=4 in active directions (contract of init_grid)",
    "no static gravity, cooling or self-gravity; floors on density not triggered in the final update are not assumed: the update proved is the one executed",
]


def tasks(tier):
    return [(name(*c), "check", c) for c in configs(tier)] + [(name(*c), "check", c) for c in sr_configs(tier)]


def sr_configs(tier):
    out = []
    for dim in (1, 2, 3):
        for gas in ("HYDRO", "MHD"):
            out.append((dim, "vl_sr", dict(GAS=gas, EOS="ADIABATIC", NSCALARS="0", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY")))
    return out


def check(dim, integ, conf):
    e, st = run_integrator(dim, integ, **conf)
    out = []
    mhd = conf["GAS"] == "MHD"
    ix, iv, F = cell(e, dim)
    if consistent(F) != z3.sat:
        return [R("unknown", "inconsistent preconditions")]
    side = e.stats["disjoint"] + e.stats["membership"] + e.stats["head_resolved"]
    fn = sorted(e.stats["inlined"])
    out.append(R("proved", obligations=side, name="loop-frame side conditions", functions=fn, assumed=sorted(e.stats["contract_calls"])))
    for suf in leaf_cons(e.P):
        if mhd and suf[0] in ["B%dc" % n for n in range(1, dim + 1)]:
            continue
        d = rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
        ok, p, x = expand_conserved(d, iv, F=F, budget=60)
        nm = "U.%s telescopes" % ".".join(suf)
        if ok:
            out.append(R("proved", name=nm))
        else:
            det = "cell update is not a difference of interface values; offending terms: " + "; ".join(
                "%s x %s" % (dict(c), " * ".join(show(a, 4) for a, _ in k[1])[:300]) for k, c in (x or [])[:3])
            out.append(R("failed" if ok is False else "unknown", det if ok is False else str(p) + " " + det, name=nm))
    return out


def replay(tier, bad, unk):
    cs = {name(*c): c for c in configs("thorough") + sr_configs("thorough")}
    jobs = []
    seen = set()
    for r in bad + unk:
        if r["task"] in seen or r["task"] not in cs:
            continue
        seen.add(r["task"])
        dim, integ, conf = cs[r["task"]]
        argv = []
        for N in DIMN[dim]:
            for s in (1, 2, 3):
                argv.append(list(N) + [s, 3, 1, 0.3])
        jobs.append(("conserve.c", realconf(integ.replace("_sr", ""), conf), (), argv))
    return harn.sweep(jobs)


def smoke(tier):
    jobs = []
    s = harn.seed()
    for n, (dim, integ, conf) in enumerate(configs("quick", gases=("HYDRO", "MHD"))):
        if "MESH_REFINEMENT" in conf and tier == "quick":
            continue
        jobs.append(("conserve.c", realconf(integ, conf), (), [list(DIMN[d][0]) + [s + n, 3, 1, 0.3] for d in (1, 2, 3)]))
    uniq = {}
    for j in jobs:
        uniq[repr(j[1])] = j
    return harn.sweep(list(uniq.values()))
