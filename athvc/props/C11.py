"""gravity: total energy including the potential energy and momentum balance"""
import re
from ..integ import *
from ..equiv import *
from ..runner import R
from .. import harn
from ..poly import Norm, padd, pmul, pconst, patom, pscale, ppow
from ._integ import realconf
TITLE = "Gravity exchanges momentum and energy consistently with the potential"
LEVEL = "proof"
LIMIT = {"quick": 300, "thorough": 900}
ASSUMPTIONS = ["contracts of fluxes() and lr_states(): write their outputs only; for the free-fall obligations: functions of their arguments, exact for uniform data (C04, C07)",
               "contract of cc_pos(): linear in the index; the static potential is a function of position",
               "the Poisson solver is not covered: the potential arrays are arbitrary", "the density floor is not reached"]
BACKENDS = ["symbolic execution of the integrators and selfg_fc", "polynomial normal form (exact rationals)", "canonical forms"]
SELF = dict(SELF_GRAVITY_DEFINE="SELF_GRAVITY", SELF_GRAVITY_ALGORITHM="SELF_GRAVITY_USING_FFT")


def tasks(tier):
    out = []
    for integ in ("ctu", "vl"):
        for dim in (3, 2, 1):
            for gas in ("MHD", "HYDRO"):
                for eos in ("ADIABATIC", "ISOTHERMAL"):
                    nm = "%s %s %s %dD" % (gas, eos, integ, dim)
                    out.append(("static potential " + nm, "static", (gas, eos, integ, dim)))
                    out.append(("self-gravity " + nm, "selfg", (gas, eos, integ, dim)))
                    out.append(("free fall, static potential " + nm, "fall", (gas, eos, integ, dim, False)))
                    out.append(("free fall, self-gravity " + nm, "fall", (gas, eos, integ, dim, True)))
    for dim in (3, 2, 1):
        for eos in ("ADIABATIC", "ISOTHERMAL"):
            out.append(("correction with the new potential %s %dD" % (eos, dim), "correct", (eos, dim)))
    return out


def ccpos(eng, st, args):
    for n in range(3):
        obj, path, ty = eng.deref(args[4 + n][0], args[4 + n][1], st)
        eng.write(st, obj, path, ty, base_sel("pos%d" % (n + 1), [args[1 + n][0]], "r"))


def fcpos(eng, st, args):
    for n in range(3):
        obj, path, ty = eng.deref(args[4 + n][0], args[4 + n][1], st)
        eng.write(st, obj, path, ty, rsub(base_sel("pos%d" % (n + 1), [args[1 + n][0]], "r"), rmul(rconst("1/2"), rsym("G.dx%d" % (n + 1)))))


def gpot(eng, st, args):
    """potential at cell centres and face centres becomes an array value"""
    at, face = [], None
    for n, (a, _) in enumerate(args):
        p = Norm().norm(a)
        idx, h = None, 0
        for m, c in p.items():
            if len(m) != 1 or m[0][1] != 1:
                return app("phi", [x for x, _ in args])
            t = m[0][0]
            if t.op == "sel0" and t.args[0] == "pos%d" % (n + 1) and c == 1:
                idx = t.args[1][0]
            elif t is rsym("G.dx%d" % (n + 1)) and abs(c) == Fraction(1, 2):
                h = c
            else:
                return app("phi", [x for x, _ in args])
        if idx is None:
            return app("phi", [x for x, _ in args])
        if h:
            if face is not None:
                return app("phi", [x for x, _ in args])
            face = n + 1
            if h > 0:
                idx = iadd(idx, I1)
        at.append(idx)
    return base_sel("phi%s" % ("c" if face is None else "f%d" % face), [at[2], at[1], at[0]], "r")


def side(e):
    n = e.stats["disjoint"] + e.stats["membership"] + e.stats["head_resolved"]
    return R("proved", obligations=n, name="loop-frame side conditions", functions=sorted(e.stats["inlined"]), assumed=sorted(e.stats["contract_calls"]))


def bad(x):
    return "; ".join("%s x %s" % (dict(c), " * ".join(show(a, 4) for a, _ in k[0] + k[1])[:300]) for k, c in (x or [])[:3])


def verdict(out, nm, ok, p, x):
    if ok:
        out.append(R("proved", name=nm))
    else:
        out.append(R("failed" if ok is False else "unknown", ("" if ok is False else str(p)[:100] + " ") + bad(x), name=nm))


def static(gas, eos, integ, dim):
    con = dict(gpot=gpot, cc_pos=ccpos, fc_pos=fcpos)
    e, st = run_integrator(dim, integ, con, vals_extra={("StaticGravPot", ()): Func("gpot")}, GAS=gas, EOS=eos, NSCALARS="1")
    ix, iv, F = cell(e, dim)
    out = [side(e)]
    D = lambda *suf: rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
    phic = base_sel("phic", list(ix), "r")
    dt = rsym("G.dt")
    for suf in (("d",), ("s", "#0")):
        verdict(out, "%s changes by differences of interface values" % ".".join(suf), *expand_conserved(D(*suf), iv, F=F, budget=60))
    if eos == "ADIABATIC":
        verdict(out, "E + d*Phi changes by differences of interface values",
                *expand_conserved(radd(D("E"), rmul(phic, D("d"))), iv, F=F, budget=60))
    rho = None
    for a in (1, 2, 3):
        if a > dim:
            verdict(out, "M%d changes by differences of interface values" % a, *expand_conserved(D("M%d" % a), iv, F=F, budget=60))
            continue
        up = list(ix)
        up[3 - a] = iadd(up[3 - a], I1)
        fl, fr = base_sel("phif%d" % a, list(ix), "r"), base_sel("phif%d" % a, up, "r")
        ok, p, x = expand_conserved(D("M%d" % a), iv, F=F, budget=60, crit=lambda p, v: pot_rest(p, v))
        if not ok:
            verdict(out, "M%d changes by differences of interface values plus a density times the potential difference" % a, ok, p, x)
            continue
        cl, cr = coef(p, fl), coef(p, fr)
        sc = patom(rmul(R1, dt))
        s = padd(cl, cr, 1)
        verdict(out, "momentum source %d is proportional to the potential difference across the cell" % a, not s, s, [])
        # -cr*dx/dt is the density used
        N = Norm()
        cr = unfloor(cr)
        rh = pmul(pscale(cr, -1), N.norm(rdiv(rsym("G.dx%d" % a), dt)))
        rest = padd(rh, N.norm(readloc(e, S0, "G.U", ix + ("d",))), -1)
        okh = half_step(rest, iv, e, ix)
        out.append(R("proved" if okh is True else "failed", "" if okh is True else "density used is not the half-step density: %s" % okh,
                     name="momentum source %d uses the density advanced by half a step" % a))
        if rho is None:
            rho = rh
        else:
            z = padd(rh, rho, -1)
            verdict(out, "momentum source %d uses the same density as source 1" % a, not z, z, [])
    return out


def has(m, f):
    return any(any(x.op == "sel0" and f(x.args[0]) for x in [a]) for a, _ in m)


def pot_rest(p, iv):
    """bad classes after removing the monomials containing the potential at the faces"""
    q = {m: c for m, c in p.items() if not has(m, lambda n: n.startswith("phif"))}
    r = telescopes(q, iv)
    # the density multiplying the potential has to be unfolded down to the initial density and fluxes
    for m, c in p.items():
        if m in q:
            continue
        for a, _ in m:
            if a.op == "inst" and a.args[0].body is not None:
                r.append((((), ((a, 1),)), {(0,): c}))
    return r


def coef(p, atom):
    out = {}
    for m, c in p.items():
        d = dict(m)
        if d.pop(atom, 0) == 1:
            out = padd(out, {tuple(sorted(d.items(), key=lambda ae: ae[0].id)): c})
    return out


def unfloor(p):
    """the density where the floor is not reached"""
    out = {}
    for m, c in p.items():
        r = pconst(c)
        for a, x in m:
            if a.op == "ite" and a.args[1] is rsym("d_MIN"):
                r = pmul(r, ppow(unfloor(Norm().norm(a.args[2])), x))
            else:
                r = pmul(r, {((a, x),): Fraction(1)})
        out = padd(out, r)
    return out


def half_step(q, iv, e, ix):
    """True if q = -dt/2 * sum over directions of flux differences / dx"""
    from ..decide import classes
    seen = []
    for (co, rest), d in classes(q, iv).items():
        d = {s: c for s, c in d.items() if c}
        if not d:
            continue
        dx = [(a, x) for a, x in co if x == -1]
        dts = [(a, x) for a, x in co if x == 1 and a is rsym("G.dt")]
        if len(co) != 2 or len(dx) != 1 or len(dts) != 1 or len(d) != 2 or len(rest) != 1 or None in d:
            return "term %s %s" % ([show(a) for a, _ in co], [show(a, 3)[:80] for a, _ in rest])
        (s1, c1), (s2, c2) = sorted(d.items())
        if c1 != Fraction(1, 2) or c2 != -Fraction(1, 2):
            return "coefficients %s %s" % (c1, c2)
        df = [b - a for a, b in zip(s1, s2)]
        if sorted(df) != [0] * (len(df) - 1) + [1]:
            return "shift %s" % df
        a = len(df) - df.index(1)
        if dx[0][0] is not rsym("G.dx%d" % a):
            return "width"
        seen.append(a)
    return True if sorted(seen) == list(range(1, len(iv) + 1)) else "directions %s" % seen


def is_phi(t, names=("G.Phi",)):
    return t.op == "sel0" and t.args[0].split("[")[0] in names


def quadratic(p, ix, names, dim):
    """substitute a quadratic potential (origin at the cell centre) for the potential values in polynomial p"""
    g = [patom(rsym("g%d" % a)) for a in (1, 2, 3)]
    h = {(a, b): patom(rsym("h%d%d" % (min(a, b), max(a, b)))) for a in (1, 2, 3) for b in (1, 2, 3)}
    dx = [patom(rsym("G.dx%d" % a)) for a in (1, 2, 3)]

    def val(t):
        off = [ival(isub(a, b)) for a, b in zip(t.args[1], ix)]
        X = [pscale(dx[n], off[2 - n]) if n < dim and off[2 - n] else {} for n in range(3)]
        r = patom(rsym("phi0"))
        for n in range(dim):
            if X[n]:
                r = padd(r, pmul(g[n], X[n]))
                for q in range(dim):
                    if X[q]:
                        r = padd(r, pscale(pmul(h[(n + 1, q + 1)], pmul(X[n], X[q])), Fraction(1, 2)))
        return r
    out = {}
    memo = {}
    for m, c in p.items():
        r = pconst(c)
        for a, x in m:
            if is_phi(a, names):
                if a not in memo:
                    memo[a] = val(a)
                r = pmul(r, ppow(memo[a], x))
            else:
                r = pmul(r, {((a, x),): Fraction(1)})
        out = padd(out, r)
    return out


def want_quadratic(a, dim, factor):
    """-dt * (mean + (h11+h22+h33)/(4 pi G)) * g_a"""
    N = Norm()
    tr = R0
    for b in range(1, dim + 1):
        tr = radd(tr, rsym("h%d%d" % (b, b)))
    return N.norm(rneg(rmul(rmul(rsym("G.dt"), factor), rmul(radd(rsym("grav_mean_rho"), rdiv(tr, rsym("four_pi_G"))), rsym("g%d" % a)))))


def selfg(gas, eos, integ, dim):
    e, st = run_integrator(dim, integ, GAS=gas, EOS=eos, NSCALARS="1", **SELF)
    ix, iv, F = cell(e, dim)
    out = [side(e)]
    D = lambda *suf: rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
    phic = readloc(e, S0, "G.Phi", ix)
    for suf in (("d",), ("s", "#0")):
        verdict(out, "%s changes by differences of interface values" % ".".join(suf), *expand_conserved(D(*suf), iv, F=F, budget=60))
    if eos == "ADIABATIC":
        verdict(out, "E + d*Phi changes by differences of interface values",
                *expand_conserved(radd(D("E"), rmul(phic, D("d"))), iv, F=F, budget=60, crit=zerosum))
    for a in (1, 2, 3):
        ok, p, x = expand_conserved(D("M%d" % a), iv, F=F, budget=60, crit=zerosum)
        verdict(out, "M%d changes by differences of interface values" % a, ok, p, x)
        if not ok or a > dim:
            continue
        q = {m: c for m, c in p.items() if any(is_phi(t) for t, _ in m)}
        z = padd(quadratic(q, ix, ("G.Phi",), dim), want_quadratic(a, dim, R1), -1)
        z = {m: c for m, c in z.items() if c}
        verdict(out, "M%d: gravity of a quadratic potential is -density*gradient" % a, not z, z, [])
    # mass fluxes saved for the correction are the ones that moved the mass
    dd = D("d")
    for a in range(1, dim + 1):
        lo = readloc(e, st, "G.x%dMassFlux" % a, ix)
        up = list(ix)
        up[3 - a] = iadd(up[3 - a], I1)
        hi = readloc(e, st, "G.x%dMassFlux" % a, tuple(up))
        dd = radd(dd, rmul(rdiv(rsym("G.dt"), rsym("G.dx%d" % a)), rsub(hi, lo)))
    ok, p, N = expand_zero(dd, F=F, budget=60)
    out.append(R("proved" if ok else "failed" if ok is False else "unknown", "" if ok else str(p)[:200], name="the saved mass fluxes are those that changed the density"))
    return out


def correct(eos, dim):
    P = program(["gravity/selfg.c"], GAS="HYDRO", EOS=eos, NSCALARS="1", **SELF)
    fs, vals = grid_facts(4, dim)
    e = Engine(P, fs, {}, vals)
    st, _ = run(e, "selfg_fc", [(Ptr("D", (), I0, "obj"), DPTR)])
    e.bounds = bounds(vals)
    ix, iv, F = cell(e, dim)
    out = [side(e)]
    D = lambda *suf: rsub(readloc(e, st, "G.U", ix + suf), readloc(e, S0, "G.U", ix + suf))
    half = rconst("1/2")
    for suf in (("d",), ("s", "#0")):
        ok, p, N = expand_zero(D(*suf), F=F)
        out.append(R("proved" if ok else "failed", "", name="%s unchanged" % ".".join(suf)))
    if eos == "ADIABATIC":
        # density change made by the saved mass fluxes
        dd = R0
        for a in range(1, dim + 1):
            up = list(ix)
            up[3 - a] = iadd(up[3 - a], I1)
            dd = rsub(dd, rmul(rdiv(rsym("G.dt"), rsym("G.dx%d" % a)), rsub(readloc(e, S0, "G.x%dMassFlux" % a, tuple(up)), readloc(e, S0, "G.x%dMassFlux" % a, ix))))
        dphi = rsub(readloc(e, S0, "G.Phi", ix), readloc(e, S0, "G.Phi_old", ix))
        verdict(out, "E + d*(Phi_old+Phi)/2 changes by differences of interface values over the whole step",
                *expand_conserved(radd(D("E"), rmul(rmul(half, dphi), dd)), iv, F=F, budget=60, crit=zerosum))
    for a in (1, 2, 3):
        ok, p, x = expand_conserved(D("M%d" % a), iv, F=F, budget=60, crit=zerosum)
        verdict(out, "M%d changes by differences of interface values" % a, ok, p, x)
        if not ok or a > dim:
            continue
        for which, other, sg in (("G.Phi", "G.Phi_old", 1), ("G.Phi_old", "G.Phi", -1)):
            q = {m: c for m, c in p.items() if any(is_phi(t, (which,)) for t, _ in m)}
            z = padd(quadratic(q, ix, (which,), dim), want_quadratic(a, dim, rmul(half, rconst(sg))), -1)
            z = {m: c for m, c in z.items() if c}
            verdict(out, "M%d: half the gravity of the %s potential is %s" % (a, "new" if sg > 0 else "old", "added" if sg > 0 else "taken back"), not z, z, [])
    return out


def fall(gas, eos, integ, dim, selfgrav):
    """uniform gas in a uniform gravitational field"""
    Engine.cfgname = gas
    con = {"lr_states": lr_functional(2)}
    ve = {}
    conf = dict(GAS=gas, EOS=eos, NSCALARS="1", ACCURACY="SECOND_ORDER_PRIM")
    if selfgrav:
        conf.update(SELF)
    else:
        con.update(gpot=lambda eng, st, args: app("phi", [a for a, _ in args]), cc_pos=ccpos, fc_pos=fcpos)
        ve = {("StaticGravPot", ()): Func("gpot")}
    e, st = run_integrator(dim, integ, con, vals_extra=ve, **conf)
    out = [side(e)]
    ix, _, F = cell(e, dim, ("inner",) * dim)
    C = Canon(F, exch=symmetries(e.P, 2), rules=(consistency(e.P, 2, mass=True),))
    S = lambda n: C.of(C.atom(("sym", n)))
    # the density is above the floor
    C.known[C.add(C.of(C.atom(("leaf", "G.U[][][].d", (0, 0, 0)))), C.scale(S("d_MIN"), -1))] = 1

    def sym(n):
        return C.const(0) if gas == "HYDRO" and "Bx" in n else S(n)

    def leaf(nm, idx):
        if gas == "HYDRO" and nm.startswith("Bx"):
            return C.const(0)
        if nm.startswith("pos"):
            a = int(nm[3])
            o = ival(isub(idx[0], ix[3 - a]))
            return C.add(S("X%d" % a), C.scale(S("G.dx%d" % a), o))
        off = [ival(isub(a, b)) for a, b in zip(idx, ix)]
        if None in off or not nm.startswith("G."):
            raise Unsupported("leaf " + nm)
        if nm.startswith("G.Phi"):
            r = S("phi0")
            for a in range(1, dim + 1):
                r = C.add(r, C.scale(C.mul(S("grav%d" % a), S("G.dx%d" % a)), off[3 - a]))
            return r
        m = re.match(r"G\.B([123])i", nm)
        return C.of(C.atom(("leaf", "G.U[][][].B%sc" % m.group(1) if m else nm, (0, 0, 0))))

    def ph(args):
        r = frozenset()
        for a in range(1, dim + 1):
            r = C.add(r, C.mul(S("grav%d" % a), args[a - 1]))
        return r
    v = C.evaluator(leaf, sym, {"phi": ph})
    U0 = lambda *suf: v(readloc(e, S0, "G.U", ix + suf))
    U1 = lambda *suf: v(readloc(e, st, "G.U", ix + suf))
    # the source of the self-gravity momentum is the mean density (uniform potential gradient)
    rho = S("grav_mean_rho") if selfgrav else U0("d")
    dt = S("G.dt")
    want = {("d",): U0("d"), ("s", "#0"): U0("s", "#0")}
    E = U0("E") if eos == "ADIABATIC" else None
    for a in (1, 2, 3):
        w = U0("M%d" % a)
        if a <= dim:
            g = S("grav%d" % a)
            w = C.add(w, C.scale(C.mul(C.mul(dt, g), rho), -1))
            if E is not None:
                # mass flux at the half step: d*(v - g dt/2)
                f = C.add(U0("M%d" % a), C.scale(C.mul(C.mul(dt, g), U0("d")), Fraction(-1, 2)))
                E = C.add(E, C.scale(C.mul(C.mul(dt, g), f), -1))
        want[("M%d" % a,)] = w
    if E is not None:
        want[("E",)] = E
    if gas == "MHD":
        for a in (1, 2, 3):
            want[("B%dc" % a,)] = U0("B%dc" % a)
    for suf, w in want.items():
        nm = {"d": "density unchanged", "E": "energy changes by the work of gravity at the half-step velocity"}.get(suf[0], "%s as in free fall" % ".".join(suf))
        r, x = compare(C, U1(*suf), w)
        if r == "equal":
            out.append(R("proved", name=nm))
        elif r == "sampled":
            out.append(R("bounded", "canonical forms differ textually, equal at 3 sampled interpretations", name=nm))
        else:
            out.append(R("failed", "values %r and %r" % x, name=nm))
    return out


def jobs():
    s = harn.seed()
    J = []
    D = [[9, 1, 1], [8, 7, 1], [6, 5, 7]]
    for g in ("HYDRO", "MHD"):
        for i, a, e in (("CTU_INTEGRATOR", "SECOND_ORDER_CHAR", "ADIABATIC"), ("VL_INTEGRATOR", "SECOND_ORDER_PRIM", "ADIABATIC"),
                        ("CTU_INTEGRATOR", "THIRD_ORDER_CHAR", "ISOTHERMAL"), ("VL_INTEGRATOR", "SECOND_ORDER_PRIM", "ISOTHERMAL")):
            c = dict(GAS=g, EOS=e, INTEGRATOR_DEF=i, ACCURACY=a)
            J.append(("grav.c", c, (), [d + [s + n, m] for n, d in enumerate(D) for m in "sfp"]))
            J.append(("grav.c", dict(c, SELF_GRAVITY_DEFINE="SELF_GRAVITY", SELF_GRAVITY_ALGORITHM="SELF_GRAVITY_USING_MULTIGRID"), (),
                      [d + [s + n, m] for n, d in enumerate(D) for m in "gfqp"]))
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
