"""shared contract helpers"""
from .terms import *
from .engine import *
from . import cfg
from .intprove import Facts, prove


def program(files, **conf):
    d = cfg.config_dir(**conf)
    return Program([(f, cfg.parse(d, f)) for f in files])


G = "G"          # the Grid object
D = "D"          # the Domain object


def gs(name):
    return isym(G + "." + name)


def grid_facts(nghost, dim, minN=4):
    """index bounds set by init_grid: is=nghost, ie=is+Nx-1 (Nx>=minN in active directions)"""
    fs = []
    vals = {}
    for d, (a, b) in enumerate((("is", "ie"), ("js", "je"), ("ks", "ke"))):
        N = isym("N%d" % (d + 1))
        if d < dim:
            vals[(G, (a,))] = iconst(nghost)
            vals[(G, (b,))] = iadd(iconst(nghost - 1), N)
            vals[(G, ("Nx", "#%d" % d))] = N
            fs.append(ile(iconst(minN), N))
        else:
            vals[(G, (a,))] = I0
            vals[(G, (b,))] = I0
            vals[(G, ("Nx", "#%d" % d))] = I1
    vals[(D, ("Grid",))] = Ptr(G, (), I0, "obj")
    return fs, vals


def bounds(vals):
    return [(vals[(G, (a,))], vals[(G, (b,))]) for a, b in (("is", "ie"), ("js", "je"), ("ks", "ke"))]


def leafargs(eng, st, v, ty):
    """flatten a value to its numeric leaves"""
    if isinstance(v, SV):
        out = []
        for suf, lt in eng.P.leaves(ty):
            out += leafargs(eng, st, v.leaves[suf], lt)
        return out
    if isinstance(v, T):
        return [v]
    return []


def fluxes_contract(name="fluxes", struct="Cons1D_s"):
    """modular contract: *pFlux is a function of the arguments only; nothing else is assigned"""
    def c(eng, st, args):
        p, pt = args[-1]
        flat = []
        for v, t in args[:-1]:
            flat += leafargs(eng, st, v, t)
        obj, path, ty = eng.deref(p, pt, st)
        if ty.k != "struct":
            eng.write(st, obj, path, ty, app(name, flat))
            return None
        for suf, lt in eng.P.leaves(ty):
            eng.write(st, obj, path + suf, lt, app("%s.%s" % (name, ".".join(suf)), flat))
        return None
    return c


def havoc_array(eng, st, p, pt, name):
    """contract effect: contents of the array p points into become unknown"""
    ty = pt.a
    for suf, lt in eng.P.leaves(ty):
        key, idx = eng.loc(p.obj, p.path + (p.off,) + suf)
        nm = fresh("%s%s" % (name, "".join("." + s for s in suf)))
        if idx:
            st.mem[key] = Base(nm, sortof(lt), eng.scopevars)
        else:
            st.mem[key] = inst(Def(nm, eng.scopevars, None, sortof(lt)), eng.scopevars)


def lr_states_contract(eng, st, args):
    """assigns Wl[], Wr[] only"""
    for a in args:
        v, t = a
        if isinstance(v, Ptr) and t.k == "ptr" and t.a.k == "struct" and t.a.a == "Prim1D_s":
            pass
    (Wl, tl), (Wr, tr) = args[-3], args[-2]
    havoc_array(eng, st, Wl, tl, "Wl")
    havoc_array(eng, st, Wr, tr, "Wr")
    return None


def noop(eng, st, args):
    return None


def run(eng, fname, args, st=None):
    st = st or State({}, ())
    eng.frames.append({"scopes": [{}], "fn": "<spec>", "uid": "spec"})
    try:
        r = eng.call(fname, args, st)
    finally:
        eng.frames.pop()
    return st, r[0]


def readloc(eng, st, obj, path, kind="r"):
    key, idx = eng.loc(obj, path)
    return eng.lookup(st, key, REAL if kind == "r" else INT, idx)


def symstruct(P, tag, name):
    """struct value with symbolic leaves name.field"""
    ty = CT("struct", tag)
    return SV(ty, {suf: rsym(name + "." + ".".join(suf)) for suf, lt in P.leaves(ty)}), ty


def leaf(sv, *path):
    return sv.leaves[tuple(path)]


def ptr_to(eng, st, obj, val, ty):
    """object obj of type ty holding val; returns (pointer, type) argument"""
    eng.singles_objs = getattr(eng, "singles_objs", set())
    if isinstance(val, SV):
        for suf, lt in eng.P.leaves(ty):
            eng.write(st, obj, suf, lt, val.leaves[suf])
    else:
        eng.write(st, obj, (), ty, val)
    return Ptr(obj, (), I0, "obj"), ptr(ty)


GASVALS = {("Gamma_1", ()): rsub(rsym("Gamma"), R1), ("Gamma_2", ()): rsub(rsym("Gamma"), rconst(2)),
           ("Iso_csound2", ()): rmul(rsym("Iso_csound"), rsym("Iso_csound"))}


def result_struct(eng, st, obj, ty):
    return SV(ty, {suf: eng.rd(st, obj, suf, lt)[0] if isinstance(eng.rd(st, obj, suf, lt), tuple) else eng.rd(st, obj, suf, lt) for suf, lt in eng.P.leaves(ty)})


def resolver(facts, extra=None):
    """returns f(t): t with loop summaries unfolded and every condition decided by the integer facts removed"""
    F = facts if isinstance(facts, Facts) else Facts(facts)
    memo = {}

    def red(x):
        if x.op == "ite" and x.args[0].sort == "b":
            if prove(F, x.args[0]):
                return x.args[1]
            if prove(F, bnot(x.args[0])):
                return x.args[2]
        if x.op == "inst":
            u = unfold(x)
            if u is not None:
                return full(u)
        if extra is not None:
            return extra(x)
        return x

    def full(t):
        r = memo.get(t)
        if r is None:
            r = mapterm(t, red)
            memo[t] = r
        return r
    return full
