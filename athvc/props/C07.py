"""reconstruction: contracts on lr_states() for every cell index of the sweep"""
from ..fncase import *
from .. import harn
TITLE = "Reconstruction keeps uniform and linear data, never overshoots, is unbiased"
LEVEL = "proof"
LIMIT = {"quick": 240, "thorough": 1200}
ASSUMPTIONS = ["exact real arithmetic",
               "the eigenvector routines are entered (not abstracted); their identities are property C06",
               "mirror symmetry of the characteristic versions, linear exactness of the characteristic versions and the simple-wave formula are bounded (compiled code, random states)"]
BACKENDS = ["rational-function normal form", "linear integer prover", "z3"]
FILE = {"FIRST_ORDER": "lr_states_dc.c", "SECOND_ORDER_CHAR": "lr_states_plm.c", "SECOND_ORDER_PRIM": "lr_states_prim2.c",
        "THIRD_ORDER_CHAR": "lr_states_ppm.c", "THIRD_ORDER_PRIM": "lr_states_prim3.c"}


def lr(conf, dt=None):
    """symbolic execution for arbitrary il<=iu; the values stored at an arbitrary face i, il<=i<=iu+1, as
    functions of the cell values i-3..i+2 (symbols W.<field>@<offset>)"""
    P = program(["reconstruction/" + FILE[conf["ACCURACY"]], "reconstruction/esystem_prim.c"], **conf)
    il, iu, i = isym("il"), isym("iu"), isym("i")
    facts = [ile(iconst(3), il), ile(il, iu), ile(il, i), ile(i, iadd(iu, I1))]
    e = Engine(P, facts, {}, GASVALS)
    st = State({}, ())
    a = [(Ptr("G", (), I0, "obj"), ptr(CT("struct", "Grid_s"))), (Ptr("W", (), I0, "arr"), ptr(P1)), (Ptr("Bxc", (), I0, "arr"), ptr(REAL)),
         (dt if dt is not None else rsym("dt"), REAL), (rsym("dx"), REAL), (il, INT), (iu, INT),
         (Ptr("Wl", (), I0, "arr"), ptr(P1)), (Ptr("Wr", (), I0, "arr"), ptr(P1)), (iconst(1), INT)]
    st, _ = run(e, "lr_states", a, st)
    F = Facts(facts)
    out = {}

    def red(x):
        if x.op == "ite":
            if prove(F, x.args[0]):
                return x.args[1]
            if prove(F, bnot(x.args[0])):
                return x.args[2]
        if x.op == "sel0":
            nm, idx = x.args[0], x.args[1]
            o = ival(isub(idx[0], i))
            if o is not None and nm.split("[")[0] in ("W", "Bxc"):
                return rsym("%s@%d" % (nm.replace("[]", ""), o))
        if x.op == "inst":
            u = unfold(x)
            if u is not None:
                return full(u)
        return x
    memo = {}

    def full(t):
        r = memo.get(t)
        if r is None:
            r = mapterm(t, red)
            memo[t] = r
        return r
    for o in ("Wl", "Wr"):
        for suf, lt in P.leaves(P1):
            key, idx = e.loc(o, (i,) + suf)
            out[(o,) + suf] = full(e.lookup(st, key, lt, idx))
    return P, e, out


def syms(t):
    return {x for x in subterms(t) if x.op == "rs" and "@" in x.args[0]}


def ren(t, f):
    """f(field, offset) -> term"""
    m = {}
    for x in syms(t):
        nm, o = x.args[0].rsplit("@", 1)
        m[x] = f(nm, int(o))
    return replace(t, m)


def W(suf, o):
    return rsym("%s@%d" % (fld(suf), o))


def fld(suf):
    return "W." + suf[0] + "".join("[%s]" % x[1:] for x in suf[1:])


def pre_for(conf, dt=True):
    p = [rcmp("<", R0, rsym("dx")), rcmp("<", R1, rsym("Gamma")), rcmp("<", R0, rsym("Iso_csound"))]
    if dt:
        p.append(rcmp("<=", R0, rsym("dt")))
    for o in range(-4, 4):
        p.append(rcmp("<", R0, W(("d",), o)))
        if conf["EOS"] == "ADIABATIC":
            p.append(rcmp("<", R0, W(("P",), o)))
    return p


def configs():
    out = []
    for acc in FILE:
        for g in ("HYDRO", "MHD"):
            for e in ("ADIABATIC", "ISOTHERMAL"):
                for I in ("CTU_INTEGRATOR", "VL_INTEGRATOR"):
                    if I[:2] == "VL" and not acc.endswith("PRIM"):
                        continue
                    for fl in ("ROE_FLUX", "HLLE_FLUX"):
                        if (I[:2] == "VL" or acc == "FIRST_ORDER") and fl[0] == "H":
                            continue
                        out.append(dict(ACCURACY=acc, GAS=g, EOS=e, INTEGRATOR_DEF=I, FLUX_DEF=fl, NSCALARS="2"))
    return out


def lab(c):
    return "%s %s %s %s %s" % (c["ACCURACY"], c["GAS"], c["EOS"], c["INTEGRATOR_DEF"][:3], c["FLUX_DEF"])


def tasks(tier):
    out = []
    for c in configs():
        if c["ACCURACY"] == "THIRD_ORDER_CHAR":
            continue                # values carried from one cell to the next: bounded (compiled code) only
        out.append(("uniform " + lab(c), "t_uniform", (c, tier)))
        if c["ACCURACY"] == "FIRST_ORDER":
            out.append(("copies " + lab(c), "t_first", (c, tier)))
        elif c["FLUX_DEF"] == "ROE_FLUX":
            out.append(("bounds " + lab(c), "t_bounds", (c, tier)))
            out.append(("linear " + lab(c), "t_linear", (c, tier)))
            out.append(("mirror " + lab(c), "t_mirror", (c, tier)))
    return out


def t_uniform(c, tier):
    P, e, o = lr(c)
    w = lambda nm, off: rsym(nm + "@0")
    pre = [x for x in pre_for(c) if all(s.args[0].endswith("@0") for s in syms(x))]
    out = []
    for k, v in o.items():
        d = rsub(ren(v, w), W(k[1:], 0))
        out.append(oblige("%s.%s of uniform data" % (k[0], ".".join(k[1:])), d, pre, weak=True, budget=20, tries=40))
    out[0]["functions"] = ["lr_states"]
    return out


def t_first(c, tier):
    P, e, o = lr(c)
    out = []
    for k, v in o.items():
        out.append(oblige("%s[i].%s copies its cell" % (k[0], ".".join(k[1:])), rsub(v, W(k[1:], -1 if k[0] == "Wl" else 0)), pre_for(c), tries=10))
    return out


def t_bounds(c, tier):
    P, e, o = lr(c, R0)
    out = []
    pre = pre_for(c, False)
    char = c["ACCURACY"].endswith("CHAR")
    for k, v in o.items():
        if char and k[1] not in ("Vx", "r"):
            pass
        a, b = W(k[1:], -1), W(k[1:], 0)
        np = (char and k[1] != "r") or c["ACCURACY"].startswith("THIRD")
        lo, hi = (radd(v, rconst("1e-15")), rsub(v, rconst("1e-15"))) if np else (v, v)      # sampling at 40 digits: allow for its rounding
        bad = bor(band(rcmp("<", lo, a), rcmp("<", lo, b)), band(rcmp("<", a, hi), rcmp("<", b, hi)))
        out.append(oblige("%s.%s between the adjacent cells" % (k[0], ".".join(k[1:])), ite(bad, R1, R0), pre, weak=True,
                          noproof=(char and k[1] != "r") or c["ACCURACY"].startswith("THIRD"), budget=25, tries=120))
    return out


def t_linear(c, tier):
    P, e, o = lr(c, R0)
    out = []
    # W[i+k] = w + k*s ; all densities and pressures positive
    f = lambda nm, off: radd(rsym(nm), rmul(rconst(off), rsym("s" + nm))) if nm != "Bxc" else rsym("Bxc")
    pre = [ren(x, f) for x in pre_for(c, False)]
    char = c["ACCURACY"].endswith("CHAR")
    for k, v in o.items():
        nm = fld(k[1:])
        d = rsub(ren(v, f), rsub(rsym(nm), rmul(HALF, rsym("s" + nm))))
        out.append(oblige("%s.%s of linear data is the midpoint" % (k[0], ".".join(k[1:])), d, pre, weak=True,
                          noproof=(char and k[1] != "r") or c["ACCURACY"].startswith("THIRD"), budget=25, tries=120))
    return out


def t_mirror(c, tier):
    P, e, o = lr(c)
    out = []
    pre = pre_for(c)
    char = c["ACCURACY"].endswith("CHAR") or c["INTEGRATOR_DEF"][:3] == "CTU"

    def f(nm, off):
        s = rsym("%s@%d" % (nm, -1 - off))
        return rneg(s) if nm in ("W.Vx", "Bxc") else s
    for k, v in o.items():
        if k[0] == "Wr":
            continue
        m = ren(o[("Wr",) + k[1:]], f)
        d = radd(v, m) if k[1] == "Vx" else rsub(v, m)
        out.append(oblige("%s is the mirror image" % ".".join(k[1:]), d, pre, weak=True,
                          noproof=(char and k[1] != "r") or c["ACCURACY"].startswith("THIRD"), budget=25, tries=60))
    return out


def jobs(tier="quick"):
    s = harn.seed()
    n = 150 if tier == "quick" else 3000
    out = [("recon.c", c, (), [[s, n]]) for c in configs()]
    for g in ("HYDRO", "MHD"):
        for a in ("SECOND_ORDER_PRIM", "THIRD_ORDER_PRIM"):
            out.append(("recon.c", dict(ACCURACY=a, GAS=g, EOS="ADIABATIC", INTEGRATOR_DEF="VL_INTEGRATOR", FLUX_DEF="HLLC_FLUX",
                                        SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", NSCALARS="0"), (), [[s, n]]))
    return out


def replay(tier, bad, unk):
    return harn.sweep(jobs(tier))


def smoke(tier):
    return harn.sweep(jobs(tier))
