"""obligations about loop-free functions on small structs"""
from .spec import *
from .rcase import *
from . import numev
from .runner import R


def call(P, fname, args, contracts=None, vals=None, facts=(), outs=()):
    """args: list of (value, ctype, 'ptr'|'val'); outs: indices of pointer args whose pointee is returned
    -> (return value, {i: SV/T}, engine)"""
    e = Engine(P, facts, contracts or {}, dict(GASVALS, **(vals or {})))
    st = State({}, ())
    a = []
    for n, (v, ty, how) in enumerate(args):
        if how == "ptr":
            a.append(ptr_to(e, st, "o%d" % n, v, ty))
        else:
            a.append((v, ty))
    st, r = run(e, fname, a, st)
    o = {}
    for n in outs:
        ty = args[n][1]
        if ty.k == "struct":
            o[n] = SV(ty, {suf: rdl(e, st, "o%d" % n, suf, lt) for suf, lt in P.leaves(ty)})
        else:
            o[n] = rdl(e, st, "o%d" % n, (), ty)
    return r, o, e


def rdl(e, st, obj, suf, lt):
    key, idx = e.loc(obj, suf)
    return e.lookup(st, key, lt, idx)


GAMSUB = {rsym("Gamma"): radd(rsym("Gm1"), R1)}     # Gamma is written 1+Gm1 so that 1/(Gamma-1) is a monomial


def generalise(expr, pre):
    m = {}
    extra = []

    def f(x):
        if x.op == "app" and x.args[0] in ("sqrt", "pow") and x.sort == "r":
            if x not in m:
                m[x] = rsym("gen%d" % x.id)
                extra.append(rcmp("<=", R0, m[x]))
            return m[x]
        return x
    e2 = mapterm(expr, f)
    return (e2, list(pre) + extra) if m else (expr, pre)


def oblige(name, expr, pre=(), gen=True, weak=False, noproof=False, **kw):
    """weak: an obligation the prover leaves open is reported as bounded (sampled), not as proved"""
    if noproof:
        cx = numev.falsify(expr, pre, kw.get("tries", 400))
        if cx is not None:
            return R("failed", "concrete failing input: %s -> residual %s" % (cx[0][:900], cx[1]), name=name)
        return R("bounded", "no failing input among %d samples of the symbolic execution" % kw.get("tries", 400), name=name, obligations=0, discharged=0)
    kw["sub"] = dict(GAMSUB, **(kw.get("sub") or {}))
    c = None
    if gen:
        # sound generalisation: every value of a square root / table function replaced by an arbitrary (positive) number
        x2, pre2 = generalise(expr, pre)
        if x2 is not expr:
            cx = numev.falsify(expr, pre, kw.get("tries", 240))
            if cx is None:
                c = prove_zero(x2, pre2, **dict(kw, tries=0, budget=kw.get("budget", 60) / 2))
                if c.status != "proved":
                    c = None
    if c is None:
        c = prove_zero(expr, pre, **kw)
    stt = {"proved": "proved", "failed": "failed", "failed?": "failed", "unknown": "unknown"}[c.status]
    if weak and stt == "unknown":
        return R("bounded", "not decided by the prover (%s); no failing input among %d samples" % (c.detail[:80], kw.get("tries", 240)), name=name, obligations=0, discharged=0)
    return R(stt, c.detail, name=name, obligations=max(1, c.leaves), discharged=max(1, c.leaves) if stt == "proved" else 0)


def sq(x):
    return rmul(x, x)


def rsum(*xs):
    r = R0
    for x in xs:
        r = radd(r, x)
    return r


def rprod(*xs):
    r = R1
    for x in xs:
        r = rmul(r, x)
    return r


HALF = rconst("1/2")
TINY = rconst("1e-20")
C1 = CT("struct", "Cons1D_s")
P1 = CT("struct", "Prim1D_s")


def sqrt_(x):
    return app("sqrt", [x])


def phys_cons1d(P, W, Bx, conf):
    """definition of the conserved variables (Newtonian) from primitive leaves"""
    g1 = rsub(rsym("Gamma"), R1)
    L = W.leaves
    d = L[("d",)]
    U = {("d",): d}
    for a in "xyz":
        U[("M" + a,)] = rmul(d, L[("V" + a,)])
    if conf["EOS"] == "ADIABATIC":
        E = radd(rdiv(L[("P",)], g1), rprod(HALF, d, rsum(*[sq(L[("V" + a,)]) for a in "xyz"])))
        if conf["GAS"] == "MHD":
            E = radd(E, rmul(HALF, rsum(sq(Bx), sq(L[("By",)]), sq(L[("Bz",)]))))
        U[("E",)] = E
    if conf["GAS"] == "MHD":
        U[("By",)] = L[("By",)]
        U[("Bz",)] = L[("Bz",)]
    for k in L:
        if k[0] == "r":
            U[("s",) + k[1:]] = rmul(d, L[k])
    return SV(C1, U)


def phys_flux1d(P, W, Bx, conf):
    """analytic flux of the (isothermal/adiabatic) hydro/MHD equations in x"""
    L = W.leaves
    d, vx, vy, vz = (L[(k,)] for k in ("d", "Vx", "Vy", "Vz"))
    U = phys_cons1d(P, W, Bx, conf).leaves
    p = L[("P",)] if conf["EOS"] == "ADIABATIC" else rmul(d, sq(rsym("Iso_csound")))
    F = {}
    F[("d",)] = rmul(d, vx)
    F[("Mx",)] = radd(rprod(d, vx, vx), p)
    F[("My",)] = rprod(d, vx, vy)
    F[("Mz",)] = rprod(d, vx, vz)
    if conf["EOS"] == "ADIABATIC":
        F[("E",)] = rmul(vx, radd(U[("E",)], p))
    if conf["GAS"] == "MHD":
        by, bz = L[("By",)], L[("Bz",)]
        pb = rmul(HALF, rsum(sq(by), sq(bz), sq(Bx)))
        F[("Mx",)] = rsub(radd(F[("Mx",)], pb), sq(Bx))
        F[("My",)] = rsub(F[("My",)], rmul(Bx, by))
        F[("Mz",)] = rsub(F[("Mz",)], rmul(Bx, bz))
        if conf["EOS"] == "ADIABATIC":
            F[("E",)] = rsub(radd(F[("E",)], rmul(vx, pb)), rmul(Bx, rsum(rmul(vx, Bx), rmul(vy, by), rmul(vz, bz))))
        F[("By",)] = rsub(rmul(by, vx), rmul(Bx, vy))
        F[("Bz",)] = rsub(rmul(bz, vx), rmul(Bx, vz))
    for k in L:
        if k[0] == "r":
            F[("s",) + k[1:]] = rprod(d, vx, L[k])
    return SV(C1, F)


def gas_pre(conf, *Ws):
    pre = [rcmp("<", R1, rsym("Gamma"))] if conf["EOS"] == "ADIABATIC" else [rcmp("<", R0, rsym("Iso_csound"))]
    for W in Ws:
        pre.append(rcmp("<", R0, W.leaves[("d",)]))
        if conf["EOS"] == "ADIABATIC":
            pre.append(rcmp("<=", TINY, W.leaves[("P",)]))
    return pre
