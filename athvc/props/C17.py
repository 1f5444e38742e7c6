"""output files: history averages (proved), contents of dumps and slices (bounded)"""
from ..integ import *
from ..runner import R
from .. import harn
from ..rcase import prove_zero
from ..fncase import rsum, rprod, sq, HALF
from .C08 import NG
from .C09 import single
TITLE = "Output files hold the data of the run"
LEVEL = "proof"
ASSUMPTIONS = ["exact real arithmetic; single Grid per Domain; no user-defined history columns in the proof (bounded runs enrol one)",
               "history columns in relativistic runs beyond mass, energy and momentum are not claimed",
               "contents of the VTK, binary and table files, slices and file names are bounded: written by the compiled program and read back"]
BACKENDS = ["symbolic execution with sums as folds + polynomial normal form", "files written by the compiled program and read back (bounded)"]
LIMIT = {"quick": 300, "thorough": 900}


def tasks(tier):
    return [("%s %s %s %dD history" % (g, e, c, dim), "history", (g, e, c, dim)) for c in ("CARTESIAN", "CYLINDRICAL") for g in ("HYDRO", "MHD") for e in ("ADIABATIC", "ISOTHERMAL") for dim in (1, 2, 3)]


def history(g, eos, coord, dim):
    P = program(["dump_history.c", "cc_pos.c"], GAS=g, EOS=eos, NSCALARS="2", COORD=coord)
    fs, vals = grid_facts(NG, dim, NG)
    single(vals, None)
    for d, N in enumerate(("N1", "N2", "N3")):
        vals[("DD", ("[]", "[]", "Nx", "#%d" % d))] = isym(N) if d < dim else I1
    vals[("usr_hst_cnt", ())] = I0
    vals[("myID_Comm_world", ())] = I0
    cols = []

    def fprintf(e, st, args):
        if len(args) == 3 and getattr(args[2][0], "sort", "") == "r":
            cols.append(args[2][0])
        return I0, INT
    zero = lambda e, st, args: (I0, INT)
    e = Engine(P, fs, {"fprintf": fprintf, "sprintf": zero, "fclose": zero, "free": zero, "ath_perr": zero, "ath_error": zero,
                       "ath_fname": lambda e, st, a: (Ptr("FN", (), I0, "arr"), ptr(INT)),
                       "fopen": lambda e, st, a: (Ptr("FILE", (), I0, "obj"), ptr(VOID))}, vals)
    st, _ = run(e, "dump_history", [(Ptr("M", (), I0, "obj"), ptr(CT("struct", "Mesh_s"))), (Ptr("O", (), I0, "obj"), ptr(CT("struct", "Output_s")))])
    e.bounds = bounds(vals)
    mhd, adi, cyl = g == "MHD", eos == "ADIABATIC", coord == "CYLINDRICAL"
    out = []
    vs = [newvar(x) for x in "kji"]
    ix = tuple(iatom(v) if d < dim else I0 for v, d in zip(vs, (2, 1, 0)))
    F = e.facts
    for d, i in zip((2, 1, 0), ix):
        if d < dim:
            F = F.extend(ile(e.bounds[d][0], i), ile(i, e.bounds[d][1]))
    full = resolver(F)
    U = lambda *suf: readloc(e, S0, "G.U", ix + suf)
    dx = [rsym("G.dx%d" % n) for n in (1, 2, 3)][:dim]
    x1 = None
    if cyl:
        st2, _ = run(e, "cc_pos", [(Ptr("G", (), I0, "obj"), ptr(CT("struct", "Grid_s")))] + [(i, INT) for i in reversed(ix)] + [(Ptr(o, (), I0, "obj"), ptr(REAL)) for o in ("oa", "ob", "oc")])
        x1 = readloc(e, st2, "oa", ())
    w = rprod(*(dx + ([x1] if cyl else [])))
    mx = lambda n, d: readloc(e, S0, "DD", (I0, I0, n, "#%d" % d))
    ext = [rsub(mx("MaxX", d), mx("MinX", d)) for d in range(dim)]
    if cyl:
        ext[0] = rmul(HALF, rsub(sq(mx("MaxX", 0)), sq(mx("MinX", 0))))
    V = rprod(*ext)
    di = rdiv(R1, U("d"))
    want = [("mass", U("d"))] + ([("energy", U("E"))] if adi else [])
    want += [("momentum %d" % n, U("M%d" % n)) for n in (1, 2, 3)] + [("kinetic energy %d" % n, rprod(HALF, sq(U("M%d" % n)), di)) for n in (1, 2, 3)]
    if mhd:
        want += [("magnetic energy %d" % n, rmul(HALF, sq(U("B%dc" % n)))) for n in (1, 2, 3)]
    want += [("scalar %d" % n, U("s", "#%d" % n)) for n in (0, 1)]
    if cyl:
        want += [("angular momentum", rmul(x1, U("M2")))]
    pre = [rcmp("<", R0, U("d")), rcmp("<", R0, V)] + [rcmp("<", R0, x) for x in dx]
    for nm, a in (("time", 0), ("dt", 1)):
        v = readloc(e, S0, "M", (nm,))
        ok = len(cols) > a and cols[a] is v
        out.append(R("proved" if ok else "unknown", "" if ok else "first columns", name="column %s" % nm))
    if len(cols) != len(want) + 2:
        return out + [R("unknown", "%d columns recorded, %d expected" % (len(cols), len(want) + 2), name="columns")]
    for (nm, X), t in zip(want, cols[2:]):
        x, rec = abssum(full(t), resolver(e.facts), full, ix, dim)
        name = "column %s is the volume average" % nm
        if len(rec) != 1:
            out.append(R("unknown", "%d sums in the column" % len(rec), name=name))
            continue
        (m, (rg, body)), = rec.items()
        if [(r[0], r[1]) for r in rg] != [e.bounds[d] for d in reversed(range(dim))] and not (len(rg) == dim and all(prove(F, ieq(a, b)) for r, d in zip(rg, reversed(range(dim))) for a, b in zip(r, e.bounds[d]))):
            refuted = len(rg) == dim and any(prove(e.facts, bnot(ieq(a, b))) for r, d in zip(rg, reversed(range(dim))) for a, b in zip(r, e.bounds[d]))
            out.append(R("failed" if refuted else "unknown", "summed over %s" % (rg,), name=name))
            continue
        lin = rsub(mapterm(x, lambda y: rmul(rconst(2), m) if y is m else y), rmul(rconst(2), x))
        res = rsub(mapterm(x, lambda y: body if y is m else y), rdiv(rmul(w, X), V))
        for what, r in (("linear", lin), ("value", res)):
            c = prove_zero(r, pre, budget=20)
            if c.status != "proved":
                out.append(R("unknown" if c.status == "unknown" or what == "linear" else "failed", "%s: %s" % (what, c.detail[:400]), name=name))
                break
        else:
            out.append(R("proved", name=name, obligations=2))
    out[0]["functions"] = ["dump_history"]
    return out


def neutral(t):
    return t is R0 or (t.op == "app" and str(t.args[0]).startswith("neutral_"))


def abssum(t, base, full, ix, dim):
    """replace nested sums by symbols: -> (term, {symbol: (ranges outermost first, body at the generic cell)})"""
    rec = {}

    def inner(x, todo):
        kind, d, lo, hi, act, init = x.args
        body = full(inst(d, (todo[0],) + tuple(act)))
        if body.op == "fold" and body.args[0] == "sum" and len(todo) > 1 and neutral(body.args[5]):
            r, b = inner(body, todo[1:])
            return [(lo, hi)] + r, b
        return [(lo, hi)], body

    def f(x):
        if x.op == "fold" and x.args[0] == "sum":
            m = rsym("sum%d" % len(rec))
            act = [i for i, d in zip(ix, (2, 1, 0)) if d < dim]
            rec[m] = inner(x, act)
            return m if neutral(x.args[5]) else radd(m, x.args[5])
        return x
    return mapterm(t, f), rec


def jobs():
    s = harn.seed()
    VL = dict(INTEGRATOR_DEF="VL_INTEGRATOR", ACCURACY="SECOND_ORDER_PRIM")
    S = [[s + n] + x.split() for n, x in enumerate(("12 1 1", "10 8 1", "6 8 5", "7 4 9"))]
    L = ["16 1 1 1,16,1,1,8,0,0", "16 16 1 1,10,8,1,4,4,0 1,8,12,1,18,14,0", "24 24 1 1,12,12,1,4,4,0 1,16,16,1,26,26,0 2,12,12,1,60,60,0", "8 8 8 1,8,8,8,4,4,4"]
    J = [("outf.c", dict(GAS="MHD", EOS="ADIABATIC", NSCALARS="2"), (), S), ("outf.c", dict(GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="1"), (), S),
         ("outf.c", dict(GAS="MHD", EOS="ISOTHERMAL"), (), S), ("outf.c", dict(VL, GAS="HYDRO", EOS="ADIABATIC", NSCALARS="3"), (), S),
         ("outf.c", dict(VL, GAS="MHD", EOS="ADIABATIC", SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX"), (), S)]
    for c in (dict(GAS="MHD", EOS="ADIABATIC", NSCALARS="1"), dict(GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="2")):
        J.append(("outf.c", dict(c, MESH_REFINEMENT="STATIC_MESH_REFINEMENT"), (), [[s + n] + x.split() for n, x in enumerate(L)]))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
