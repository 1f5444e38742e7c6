"""restart: the arrays filled from a restart file (proved), whole interrupted runs of the compiled program (bounded)"""
from ..integ import *
from ..runner import R
from .. import harn
from ..rcase import prove_zero
from .C08 import equal, NG
from .C09 import single
TITLE = "A run continued from a restart file equals the uninterrupted run"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["reader: fread() delivers the item of the current section at the index of the location it fills; fgets()/strncmp() find the section headers in the order of the code (well-formed file)",
               "single Grid per Domain; cell-centred field of a running simulation is the face average (C02)",
               "the writer, the order of items in a section, particles and the main loop are bounded: compiled program on small grids"]
BACKENDS = ["symbolic execution + linear integer prover", "compiled program interrupted after every step (bounded)"]


def tasks(tier):
    return [("%s %s %dD reader" % (g, e, dim), "reader", (g, e, dim)) for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL") for dim in (1, 2, 3)]


def unsup(what):
    raise Unsupported(what)


def reader(g, eos, dim):
    P = program(["restart.c"], GAS=g, EOS=eos, NSCALARS="2")
    fs, vals = grid_facts(NG, dim, NG)
    single(vals, None)
    nsec = [0]

    def fread(e, st, args):
        if args[2][0] is not I1:
            unsup("fread of several items at once")
        obj, path, ty = e.deref(args[0][0], args[0][1], st)
        key, idx = e.loc(obj, path)
        if ty == REAL:
            v = app("file%d" % nsec[0], list(idx))
        else:
            v = iatom(newvar("item"))
        e.write(st, obj, path, ty, v)
        return I1, INT

    def header(e, st, args):
        nsec[0] += 1          # a header line: the items that follow belong to a new section
        return I0, INT
    zero = lambda e, st, args: (I0, INT)
    e = Engine(P, fs, {"fread": fread, "strncmp": header, "fgets": zero, "sprintf": zero, "fclose": zero, "problem_read_restart": zero,
                       "ath_error": zero, "fopen": lambda e, st, a: (Ptr("FILE", (), I0, "obj"), ptr(VOID))}, vals)
    st, _ = run(e, "restart_grids", [(Ptr("NAME", (), I0, "arr"), ptr(INT)), (Ptr("M", (), I0, "obj"), ptr(CT("struct", "Mesh_s")))])
    e.bounds = bounds(vals)
    out = []
    seen = {}

    def item(name, v, ix, F):
        """v is the file's item number ix of a section used for nothing else"""
        v = resolver(F)(v)
        if v.op == "sel0":
            out.append(R("failed", "is not read from the file", name=name))
        elif v.op != "app" or not str(v.args[0]).startswith("file"):
            out.append(R("unknown", "value %s" % show(v, 3)[:200], name=name))
        else:
            a = list(v.args[1:]) if not isinstance(v.args[1], (tuple, list)) else list(v.args[1])
            if seen.setdefault(v.args[0], name.split(" at ")[0]) != name.split(" at ")[0]:
                out.append(R("failed", "read from the section of " + seen[v.args[0]], name=name))
            elif len(a) == len(ix) and all(prove(F, ieq(x, y)) for x, y in zip(a, ix)):
                out.append(R("proved", name=name))
            else:
                out.append(R("unknown", "item %s" % show(v, 3)[:200], name=name))
    ix, iv, F = cell(e, dim)
    for suf in leaf_cons(P):
        if suf[0] not in ("B1c", "B2c", "B3c"):
            item("U.%s" % ".".join(suf), readloc(e, st, "G.U", ix + suf), ix, F)
    if g == "MHD":
        hi = [at(ix, di=1), at(ix, dj=1) if dim > 1 else ix, at(ix, dk=1) if dim > 2 else ix]
        for n in range(3):
            lo, up = (readloc(e, st, "G.B%di" % (n + 1), x) for x in (ix, hi[n]))
            item("B%d at lower face" % (n + 1), lo, ix, F)
            item("B%d at upper face" % (n + 1), up, hi[n], F)
            full = resolver(F)
            x = rsub(full(readloc(e, st, "G.U", ix + ("B%dc" % (n + 1),))), rmul(rconst("1/2"), radd(full(lo), full(up))))
            c = prove_zero(x, [], budget=20)
            out.append(R({"proved": "proved", "unknown": "unknown"}.get(c.status, "failed"), "cell-centred minus face average: %s" % c.detail[:300], name="B%dc is the face average" % (n + 1)))
    for nm in ("time", "dt"):
        a, b = rd0(e, st, "M", nm), rd0(e, st, "G", nm)
        out.append(R("proved" if a is b else "unknown", "%s / %s" % (show(a, 3), show(b, 3)), name="Grid %s is that of the Mesh, read from the file" % nm))
        if a.op == "sel0" or a.op == "sym":
            out[-1] = R("failed", "the Mesh %s is not read" % nm, name=nm)
    out[0]["functions"] = ["restart_grids"]
    return out


def rd0(e, st, obj, nm):
    key, idx = e.loc(obj, (nm,))
    return e.lookup(st, key, REAL, idx)


def jobs(tier="quick"):
    s = harn.seed()
    NP = ("NPAR=30",)
    VL = dict(INTEGRATOR_DEF="VL_INTEGRATOR", ACCURACY="SECOND_ORDER_PRIM")
    SMR = dict(MESH_REFINEMENT="STATIC_MESH_REFINEMENT")
    grids = ("12 1 1", "10 8 1", "6 8 5")
    small = lambda ns: [[s + n, ns] + x.split() for n, x in enumerate(grids)]
    J = [("rst.c", dict(GAS="MHD", EOS="ADIABATIC", NSCALARS="2"), NP, small(3) + [[s, 1, 48, 40, 40]]),
         ("rst.c", dict(GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="1"), NP, small(3)),
         ("rst.c", dict(VL, GAS="MHD", EOS="ISOTHERMAL"), NP, small(3)),
         ("rst.c", dict(VL, GAS="HYDRO", EOS="ADIABATIC", NSCALARS="1"), NP, small(3)),
         ("rst.c", dict(VL, GAS="MHD", EOS="ADIABATIC", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX"), NP, small(2)),
         ("rst.c", dict(GAS="HYDRO", EOS="ISOTHERMAL", PARTICLES_ALGORITHM="PARTICLES", FEEDBACK_DEFINE="FEEDBACK"), NP, small(2)),
         ("rst.c", dict(GAS="HYDRO", EOS="ADIABATIC", PARTICLES_ALGORITHM="PARTICLES"), NP, small(2))]
    R3 = ["16 1 1 1,16,1,1,8,0,0", "16 12 1 1,16,12,1,8,6,0", "8 8 8 1,8,8,8,4,4,4"]
    for c in (dict(SMR, GAS="MHD", EOS="ADIABATIC", NSCALARS="1"), dict(dict(SMR, **VL), GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="2")):
        J.append(("rst.c", c, NP, [[s + n, 3 - n] + x.split() for n, x in enumerate(R3)]))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs(tier))


def smoke(tier):
    return harn.sweep(jobs(tier))
