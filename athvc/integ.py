"""integrator runs: symbolic execution of the real integrate_Nd_* and shared reads"""
import itertools
from .spec import *
from .decide import *
from . import intprove

DPTR = ptr(CT("struct", "Domain_s"))


def files(dim, integ, conf):
    return ["integrators/integrate_%dd_%s.c" % (dim, integ), "convert_var.c", "cc_pos.c"]


def run_integrator(dim, integ, contracts=None, extra_files=(), minN=4, vals_extra=None, fname=None, **conf):
    P = program(files(dim, integ, conf) + list(extra_files), INTEGRATOR_DEF=integ.replace("_sr", "").upper() + "_INTEGRATOR", **conf)
    nghost = 5 if conf.get("PARTICLES_ALGORITHM", "NO_PARTICLES") != "NO_PARTICLES" else 4
    fs, vals = grid_facts(nghost, dim, minN)
    vals[("StaticGravPot", ())] = NULL
    vals[("CoolingFunc", ())] = NULL
    vals[("ShearingBoxPot", ())] = NULL
    vals.update(vals_extra or {})
    con = {"fluxes": fluxes_contract(), "lr_states": lr_states_contract, "entropy_flux": fluxes_contract("entropy_flux")}
    con.update(contracts or {})
    con = {k: v for k, v in con.items() if v is not None}
    e = Engine(P, fs, con, vals)
    st, _ = run(e, fname or "integrate_%dd_%s" % (dim, integ.replace("_sr", "")), [(Ptr("D", (), I0, "obj"), DPTR)])
    e.bounds = bounds(vals)
    return e, st


def cell(e, dim, fixed=(), margin=(0, 0)):
    """skolem cell (k,j,i) inside the active zones; fixed[d]: 'last' -> that index is the upper bound"""
    F = e.facts0 if hasattr(e, "facts0") else e.facts
    e.facts0 = F
    ix = []
    iv = []
    for d in range(3):
        lo, hi = e.bounds[d]
        if d >= dim:
            ix.append(I0)
            continue
        if d < len(fixed) and fixed[d] == "last":
            ix.append(hi)
            continue
        v = newvar("ijk"[d])
        h = isub(hi, I1) if d < len(fixed) and fixed[d] == "inner" else hi
        F = F.extend(ile(lo, iatom(v)), ile(iatom(v), h))
        ix.append(iatom(v))
        iv.append(v)
    e.facts = F
    return tuple(reversed(ix)), tuple(reversed(iv)), F


def leaf_cons(P):
    return [s for s, t in P.leaves(CT("struct", "Cons_s"))]


S0 = State({}, ())


def at(ix, dk=0, dj=0, di=0):
    return (iadd(ix[0], iconst(dk)), iadd(ix[1], iconst(dj)), iadd(ix[2], iconst(di)))


def divB(e, s, ix, dim):
    dx = [rsym("G.dx%d" % n) for n in (1, 2, 3)]
    r = rdiv(rsub(readloc(e, s, "G.B1i", at(ix, di=1)), readloc(e, s, "G.B1i", ix)), dx[0])
    if dim > 1:
        r = radd(r, rdiv(rsub(readloc(e, s, "G.B2i", at(ix, dj=1)), readloc(e, s, "G.B2i", ix)), dx[1]))
    if dim > 2:
        r = radd(r, rdiv(rsub(readloc(e, s, "G.B3i", at(ix, dk=1)), readloc(e, s, "G.B3i", ix)), dx[2]))
    return r


def cases(dim):
    return itertools.product(("inner", "last"), repeat=dim)
