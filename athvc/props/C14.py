"""dust particles: interpolation, deposition, forces and integrators (proved); whole steps, boundaries, bookkeeping (bounded)"""
import os
from ..fncase import *
from ..runner import R
from .. import harn
TITLE = "Dust particles trade momentum exactly, are never lost, move to second order"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["exact real arithmetic",
               "the stencil of a particle lies inside the ghost zones (cells is..is+2 exist), as for every particle the boundary code keeps",
               "the integrators are proved against the drag law -K(x)(v-U(x)) with arbitrary K, U and a user force depending on position only (documented restriction); in the sheared frame the fields are taken independent of the azimuth",
               "whole steps, boundary exchange and bookkeeping are bounded: compiled code on small grids",
               "energy exchange with an adiabatic gas is not part of the property"]
BACKENDS = ["polynomial normal form (exact rationals)", "z3 (branch feasibility)", "compiled code on small grids (bounded)"]
SPEC = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + "/spec/part.c"
FILES = ["particles/utils_particle.c", "particles/integrators_particle.c", "cc_pos.c", SPEC]
GS, GR, R3 = CT("struct", "Grid_s"), CT("struct", "Grain_s"), CT("struct", "Real3Vect_s")
BASE = dict(PARTICLES_ALGORITHM="PARTICLES", GAS="HYDRO", EOS="ISOTHERMAL", NSCALARS="0", ACCURACY="SECOND_ORDER_PRIM", FEEDBACK_DEFINE="FEEDBACK")
SB = dict(SHEARING_BOX_MODE="SHEARING_BOX")
FG = dict(SB, FARGO_MODE="FARGO")


def cf(**k):
    return dict(BASE, **k)


def tasks(tier):
    t = []
    for how, nm in ((1, "linear"), (2, "TSC"), (3, "quadratic")):
        for act in ((1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1), (1, 0, 1), (0, 0, 1), (0, 1, 0)):
            t.append(("weights %s, axes %d%d%d" % ((nm,) + act), "weights", (how, act)))
    for c, nm in ((cf(), "isothermal"), (cf(EOS="ADIABATIC"), "adiabatic"), (cf(FEEDBACK_DEFINE="NO_FEEDBACK"), "passive"), (cf(GAS="MHD", EOS="ADIABATIC"), "MHD adiabatic")):
        for n in (2, 3):
            t.append(("gas at the particle, %s, %d cells" % (nm, n), "values", (c, n)))
            if c["FEEDBACK_DEFINE"] == "FEEDBACK" and c["GAS"] == "HYDRO":
                t.append(("deposition, %s, %d cells" % (nm, n), "deposit", (c, n)))
        t.append(("gas information, " + nm, "gas", (c,)))
    for c, nm, sb in ((cf(), "inertial", (None,)), (cf(**SB), "shearing box", (0, 1)), (cf(**FG), "orbital advection", (0, 1))):
        for s in sb:
            x = nm + ("" if s is None else " xy" if s == 0 else " xz")
            t.append(("forces, " + x, "forces", (c, s)))
            for how, h in ((1, "explicit"), (2, "semi-implicit"), (3, "fully implicit")):
                t.append(("%s integrator, %s" % (h, x), "integ", (c, s, how)))
    t.append(("stopping times", "tstop", ()))
    t.append(("drag law", "drag", ()))
    return t


def gptr():
    return (Ptr("G", (), I0, "obj"), ptr(GS))


def out_():
    return (Ptr("o", (), I0, "arr"), ptr(REAL))


def r3(nm):
    return SV(R3, {("x%d" % a,): rsym("%s%d" % (nm, a)) for a in (1, 2, 3)}), R3


def xs(nm):
    return [(rsym("%s%d" % (nm, a)), REAL) for a in (1, 2, 3)]


def unint(name, sub=()):
    """an arbitrary function of the position (sub: axes it does not depend on)"""
    def c(eng, st, args):
        a = [x for x, _ in args]
        d = ""
        if len(a) == 4:
            d = "%d" % ival(a[0])
            a = a[1:]
        return app(name + d, [x for n, x in enumerate(a) if n not in sub])
    return c


def userforce(sub):
    def c(eng, st, args):
        obj, path, ty = eng.deref(args[0][0], args[0][1], st)
        pos = [x for n, (x, _) in enumerate(args[1:4]) if n not in sub]
        for d in range(3):
            key, idx = eng.loc(obj, path + ("x%d" % (d + 1),))
            eng.write(st, obj, path + ("x%d" % (d + 1),), REAL, radd(eng.lookup(st, key, REAL, idx), app("F%d" % d, pos)))
        return None
    return c


def dragc(sub):
    """contract of the drag: -K(x)(v-U(x)), inverse stopping time K(x)"""
    def c(eng, st, args):
        pos = [x for n, (x, _) in enumerate(args[2:5]) if n not in sub]
        v = [x for x, _ in args[5:8]]
        K = app("K", pos)
        obj, path, ty = eng.deref(args[9][0], args[9][1], st)
        eng.write(st, obj, path, ty, K)
        return SV(R3, {("x%d" % (d + 1),): rmul(K, rsub(app("U%d" % d, pos), v[d])) for d in range(3)}), R3
    return c


def go(conf, fn, args, n, con=None, vals=None, facts=()):
    P = program(FILES, **conf)
    e = Engine(P, facts, con or {}, {**GASVALS, **(vals or {})})
    st = State({}, ())
    st, _ = run(e, fn, args + [out_()], st)
    full = resolver(list(facts))
    return [mapterm(full(rdl(e, st, "o", (iconst(i),), REAL)), lift) for i in range(n)]


def lift(x):
    """real value of a conditional integer -> conditional real"""
    if x.op == "i2r":
        y = x.args[0]
        if y.op == "ite":
            return ite(y.args[0], lift(i2r(y.args[1])), lift(i2r(y.args[2])))
        if y.op == "ip" and any(a.op == "ite" for m, _ in y.args[1] for a in m):
            r = rconst(y.args[0])
            for m, c in y.args[1]:
                r = radd(r, rprod(rconst(c), *[lift(i2r(a)) for a in m]))
            return r
    return x


def weights(how, act):
    out = []
    cell, _ = r3("c")
    pre = []
    L = dict(cell.leaves)
    for a in (1, 2, 3):
        if act[a - 1]:
            pre.append(rcmp("<", R0, rsym("c%d" % a)))
        else:
            L[("x%d" % a,)] = R0
    n = 2 if how == 1 else 3
    o = go(BASE, "spec_weight", [(iconst(how), INT), gptr()] + xs("x") + [(SV(R3, L), R3)], 37)
    k = dict(budget=30, z3ms=2000)
    out.append(oblige("weights add up to one", o[0], pre, **k))
    for a in (1, 2, 3):
        out.append(oblige("axis %d: linear fields are reproduced" % a, o[a], pre, **k))
        if how == 3 or not act[a - 1]:
            out.append(oblige("axis %d: quadratic fields are reproduced" % a, o[3 + a], pre, **k))
    if how < 3 and sum(act) < 3:
        for a in (1, 2, 3):
            if act[a - 1]:
                A = o[33 + a]
                A = A.args[1] if A.op == "ite" else A
                f = rsub(A, i2r(app("r2i", [A], "i")))
                pre += [rcmp("<=", R0, f), rcmp("<", f, R1)]
        for z in range(n ** 3):
            w = o[7 + z]
            out.append(oblige("weight %d is not negative" % z, ite(rcmp("<", w, R0), w, R0), pre, **k))
    return out


def stencil(n, case=None):
    """symbolic stencil start inside the particle index range; case: None strictly inside, (axis, 0|1) touching its lower/upper end"""
    v, f = {("ncell", ()): iconst(n)}, []
    ix = []
    for k, a in enumerate("ijk"):
        lo, hi, s = isym(a + "lp"), isym(a + "up"), isym(a + "s0")
        last = iadd(s, iconst(n - 1))
        if case == (k, 0):
            lo = s
        else:
            f.append(ilt(lo, s))
        if case == (k, 1):
            hi = last
        else:
            f.append(ilt(last, hi))
        v[(a + "lp", ())], v[(a + "up", ())] = lo, hi
        ix.append(s)
    return v, f, [(x, INT) for x in ix]


CASES = [None] + [(k, e) for k in range(3) for e in (0, 1)]


def warr():
    return (Ptr("w", (), I0, "arr"), ptr(CT("arr", CT("arr", REAL, 3), 3)))


def values(conf, n):
    out = []
    for cs in CASES:
        v, f, ix = stencil(n, cs)
        o = go(conf, "spec_values", [(iconst(n), INT), gptr(), warr()] + ix, 8, vals=v, facts=f)
        pre = [rcmp("<=", rconst("1/2"), o[0])]
        w = "inside" if cs is None else "axis %d %s end" % (cs[0] + 1, "upper" if cs[1] else "lower")
        out += [oblige("%s: %s" % (w, nm), o[k], pre, budget=40, z3ms=2000)
                for k, nm in ((1, "particle found on the grid"), (2, "density is the weighted mean"), (3, "velocity 1"), (4, "velocity 2"), (5, "velocity 3"), (6, "sound speed"), (7, "stiffness"))]
    return out


def deposit(conf, n):
    out = []
    v, f, ix = stencil(n)
    fb, _ = r3("f")
    tail = [(fb, R3), (rsym("E"), REAL), (rsym("S"), REAL)]
    nms = ("momentum 1", "momentum 2", "momentum 3", "dissipation", "stiffness")
    for what in (0, 1):
        w = "predictor " if what else "corrector "
        for k in range(n):
            for j in range(n):
                for i in range(n):
                    o = go(conf, "spec_distr", [(iconst(what), INT), gptr(), warr()] + ix + tail + [(iconst(z), INT) for z in (k, j, i)], 5, vals=v, facts=f)
                    for q in range(5):
                        out.append(oblige("%scell +%d+%d+%d receives its share: %s" % (w, i, j, k, nms[q]), o[q], [], budget=20))
        for ax in range(3):
            for sgn in (0, 1):
                I = [isym("I%d" % a) for a in range(3)]
                g = ilt(I[ax], ix[ax][0]) if sgn else ilt(iadd(ix[ax][0], iconst(n - 1)), I[ax])
                o = go(conf, "spec_distr_frame", [(iconst(what), INT), gptr(), warr()] + ix + tail + [(I[2], INT), (I[1], INT), (I[0], INT)], 5, vals=v, facts=f + [g])
                for q in range(5):
                    out.append(oblige("%sno other cell changes (axis %d %s): %s" % (w, ax + 1, "below" if sgn else "above", nms[q]), o[q], [], budget=20))
    return out


def gas(conf):
    v, f, I = {}, [], []
    for a in "ijk":
        v[(a + "lp", ())], v[(a + "up", ())] = isym(a + "lp"), isym(a + "up")
        I.append((isym(a + "0"), INT))
        f += [ile(isym(a + "lp"), isym(a + "0")), ile(isym(a + "0"), isym(a + "up"))]
    o = go(conf, "spec_gas", [gptr()] + I[::-1], 5, vals=v, facts=f)
    P = program(FILES, **conf)
    e = Engine(P, f, {}, {**GASVALS, **v})
    d = rdl(e, State({}, ()), "G.U", (I[2][0], I[1][0], I[0][0], "d"), REAL)
    pre = [rcmp("<", R0, d), rcmp("<", R1, rsym("Gamma"))]
    return [oblige("gas %s as seen by the particles" % nm, o[k], pre, gen=False, budget=40) for k, nm in enumerate(("density", "velocity 1", "velocity 2", "velocity 3", "sound speed"))]


def setup(conf, s, drag=True):
    sub = (1,) if (s == 0 and "FARGO_MODE" not in conf) else ()
    con = dict(gK=unint("K", sub), gU=unint("U", sub), gF=unint("F", sub), Userforce_particle=userforce(sub))
    if drag:
        con["Get_Drag"] = dragc(sub)
    v = {} if s is None else {("ShBoxCoord", ()): iconst(s)}
    return con, v


def rec(eng, st, args):
    fb, ty = args[5]
    for d in range(3):
        eng.write(st, "ghost_fb", ("#%d" % d,), REAL, fb.leaves[("x%d" % (d + 1),)])
    return None


def forces(conf, s):
    con, v = setup(conf, s)
    o = go(conf, "spec_force", [gptr()] + xs("x") + xs("v"), 3, con, v)
    out = [oblige("acceleration %d other than drag" % (d + 1), o[d], [], budget=20) for d in range(3)]
    con["distrFB_corr"] = rec
    con["wei"] = lambda e, st, a: None
    v[("getweight", ())] = Func("wei")
    gp = lambda n: (Ptr(n, (), I0, "obj"), ptr(GR))
    o = go(conf, "spec_back", [gptr(), gp("a"), gp("b"), r3("c")] + xs("dv") + [(rsym("ts"), REAL)], 3, con, v)
    out += [oblige("momentum %d given to the gas is that taken by drag from the particle" % (d + 1), o[d], [], budget=20) for d in range(3)]
    return out


def integ(conf, s, how):
    con, v = setup(conf, s)
    out = []
    for nx in ((8, 8, 8), (8, 1, 1), (8, 8, 1)):
        for n in range(3):
            v[("G", ("Nx", "#%d" % n))] = iconst(nx[n])
        o = go(conf, "spec_integ", [(iconst(how), INT), gptr(), (Ptr("g", (), I0, "obj"), ptr(GR)), r3("c")], 3, con, v)
        # a particle that is stopped by the gas (K >= 0), a positive step
        pre = [rcmp("<", R0, rsym("G.dt"))]
        ks = set()
        walk = [x for x in o]
        seen = set()
        while walk:
            x = walk.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "app" and x.args[0] == "K":
                ks.add(x)
            walk += [y for y in x.args if isinstance(y, T)]
        pre += [rcmp("<", R0, k) for k in sorted(ks, key=lambda t: t.id)]
        for d in range(3):
            out.append(oblige("%s grid: velocity change %d satisfies the scheme" % ("x".join(map(str, nx)), d + 1), o[d], pre, gen=False, budget=60))
    return out


def tstop():
    P = program(FILES, **BASE)
    out = []
    T0 = lambda fn: call(P, fn, [(Ptr("G", (), I0, "obj"), ptr(GS), "val"), (I0, INT, "val")] + [(rsym(x), REAL, "val") for x in ("rho", "cs", "vd")])
    pos = [rcmp("<", R0, rsym(x)) for x in ("rho", "cs", "G.dt")] + [rcmp("<=", R0, rsym("vd"))]
    for fn, nm in (("get_ts_fixed", "fixed"), ("get_ts_epstein", "Epstein"), ("get_ts_general", "general")):
        if fn not in P.funcs:
            continue
        r, _, e = T0(fn)
        out.append(oblige(nm + " stopping time never below 1e-8 steps (so positive)", ite(rcmp("<", r, rmul(rconst("1e-8"), rsym("G.dt"))), R1, R0), pos, gen=False, budget=20))
        t0 = rdl(e, State({}, ()), "tstop0", (I0,), REAL)
        ep = rdiv(rdl(e, State({}, ()), "grrhoa", (I0,), REAL), rmul(rsym("rho"), rsym("cs")))
        floor = lambda t: ite(rcmp("<", t, rmul(rconst("1e-8"), rsym("G.dt"))), rmul(rconst("1e-8"), rsym("G.dt")), t)
        if fn == "get_ts_fixed":
            out.append(oblige("fixed stopping time is the given one", rsub(r, floor(t0)), pos, gen=False, budget=20))
        if fn == "get_ts_epstein":
            out.append(oblige("Epstein stopping time is (solid density x size)/(gas density x sound speed)", rsub(r, floor(ep)), pos, gen=False, budget=20))
        if fn == "get_ts_general":
            al = rprod(rsym("alamcoeff"), rdl(e, State({}, ()), "grproperty", (I0, "rad"), REAL), rsym("rho"))
            out.append(oblige("general stopping time is the Epstein one for small grains", rsub(r, floor(ep)), pos + [rcmp("<", al, rconst("9/4"))], gen=False, budget=20))
    return out


def drag():
    out = []
    for c in (cf(), cf(FEEDBACK_DEFINE="NO_FEEDBACK"), cf(EOS="ADIABATIC")):
        P = program(FILES, **c)
        fb = c["FEEDBACK_DEFINE"] == "FEEDBACK"

        def wei(e, st, a):
            return None

        def gv(e, st, a):
            for n, nm in enumerate(("rho", "g1", "g2", "g3", "cs") + (("st",) if fb else ())):
                obj, path, ty = e.deref(a[5 + n][0], a[5 + n][1], st)
                e.write(st, obj, path, ty, rsym(nm))
            return I0

        def gvs(e, st, a):
            for n in range(3):
                obj, path, ty = e.deref(a[3 + n][0], a[3 + n][1], st)
                key, idx = e.loc(obj, path)
                e.write(st, obj, path, ty, radd(e.lookup(st, key, ty, idx), rsym("s%d" % (n + 1))))
            return None

        seen = {}

        def ts(e, st, a):
            seen["a"] = [x for x, _ in a[2:]]
            return rsym("TS")
        con = dict(wei=wei, getvalues=gv, gasvshift=gvs, ts=ts)
        e = Engine(P, (), con, {**GASVALS, ("getweight", ()): Func("wei"), ("get_ts", ()): Func("ts")})
        st = State({}, ())
        st, r = run(e, "Get_Drag", [gptr(), (I0, INT)] + xs("x") + xs("v") + [r3("c"), (Ptr("o", (), I0, "arr"), ptr(REAL))], st)
        K = rdl(e, st, "o", (I0,), REAL)
        nm = "%s %s: " % (c["EOS"], c["FEEDBACK_DEFINE"])
        pre = [rcmp("<", R0, rsym("TS"))]
        rel = [rsub(rsym("v%d" % d), radd(rsym("g%d" % d), rsym("s%d" % d))) for d in (1, 2, 3)]
        for d in (1, 2, 3):
            out.append(oblige(nm + "drag %d = -(v - u)/stopping time" % d, radd(r.leaves[("x%d" % d,)], rmul(K, rel[d - 1])), pre, budget=20))
        soft = ite(rcmp("<", R1, rsym("st")), rsym("st"), R1) if fb else R1
        out.append(oblige(nm + "inverse stopping time, softened only where the coupling is stiff", rsub(rprod(K, rsym("TS"), soft), R1), pre, budget=20))
        if "a" in seen:
            out.append(oblige(nm + "stopping time taken for the local gas: density", rsub(seen["a"][0], rsym("rho")), [], budget=20))
            out.append(oblige(nm + "sound speed", rsub(seen["a"][1], rsym("cs")), [], budget=20))
            out.append(oblige(nm + "relative speed", rsub(rmul(seen["a"][2], seen["a"][2]), rsum(*[sq(x) for x in rel])), [], gen=False, budget=20))
    return out


def jobs():
    s = harn.seed()
    D = ["8 1 1", "7 6 1", "6 5 5"]
    J = []
    for upd in (dict(), dict(FEEDBACK_DEFINE="NO_FEEDBACK"), dict(EOS="ADIABATIC", ACCURACY="THIRD_ORDER_CHAR"), dict(GAS="MHD", EOS="ADIABATIC"), SB, FG):
        c = dict(BASE, **upd)
        runs = []
        for d in D:
            for it in (1, 2, 3):
                for ig in (1, 2, 3):
                    ts = (3, 2, 1)[(it + ig) % 3]
                    runs.append("o %s %d %d %d 4" % (d, s + 2, it, ig))
                    if "SHEARING_BOX_MODE" in upd:
                        continue
                    runs.append("w %s %d %d %d 4 %d" % (d, s + 2, it, ig, ig))
                    for bc in (4, 1, 2):
                        if c["GAS"] == "MHD" and bc != 4:
                            continue
                        runs.append("c %s %d %d %d %d %d" % (d, s + 2, it, ig, bc, ts))
                    if c["GAS"] == "MHD":
                        continue
                    for bc in (4, 1):
                        runs.append("p %s %d %d %d %d %d" % (d, s + 2, it, ig, bc, ts))
                    if d != D[2]:
                        runs.append("d %s %d %d %d 4 %d" % (d, s + 2, it, ig, ts))
                    if c["FEEDBACK_DEFINE"] == "FEEDBACK":
                        runs.append("r %s %d %d %d 4" % (d, s + 2, it, ig))
        J.append(("part.c", c, (), [r.split() for r in runs]))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
