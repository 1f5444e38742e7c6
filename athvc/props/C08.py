"""physical boundary conditions: bvals_mhd() with every ghost cell and ghost face, all grid sizes"""
import itertools
from ..integ import *
from ..runner import R
from ..intprove import consistent
import z3
from .. import harn, numev
TITLE = "Boundary conditions fill every ghost zone with the right image and touch nothing else"
LEVEL = "proof"
LIMIT = {"quick": 400, "thorough": 1500}
BACKENDS = ["symbolic execution + linear integer prover"]
ASSUMPTIONS = ["single Grid per Domain (no MPI neighbours, no refined neighbours): lx?_id = rx?_id = -1 (contract of init_mesh)",
               "active zones >= number of ghost zones in each active direction",
               "the selection of the boundary function from the input file's bc flags is executed by the compiled companion runs (bounded)"]
NG = 4
NAME = {1: "reflect", 2: "outflow", 4: "periodic", 5: "conduct"}
COMBOS = [(4,) * 6, (1,) * 6, (2,) * 6, (5,) * 6]
MIXED = [(1, 2, 5, 1, 2, 5), (2, 5, 4, 4, 1, 2), (4, 4, 1, 5, 2, 1)]


def tasks(tier):
    out = []
    for g in ("HYDRO", "MHD"):
        for dim in (1, 2, 3):
            for b in COMBOS + (MIXED if dim > 1 or True else []):
                out.append(("%s %dD bc=%s" % (g, dim, "".join(map(str, b[:2 * dim]))), "check", (g, dim, b)))
    for g in ("HYDRO", "MHD"):
        for side in range(6):
            for f in NAME:
                out.append(("flag %s side %d bc=%d" % (g, side, f), "flag", (g, side, f)))
    return [t for n, t in enumerate(out) if t[0] not in [u[0] for u in out[:n]]]


def ids(c):
    from pycparser import c_ast
    out = set()

    class V(c_ast.NodeVisitor):
        def visit_ID(self, n):
            out.add(n.name)
    V().visit(c)
    return out


def run_bc(g, dim, bc):
    P = program(["bvals_mhd.c"], GAS=g, NSCALARS="1")
    fs, vals = grid_facts(NG, dim, NG)
    for d in range(3):
        vals[(G, ("lx%d_id" % (d + 1),))] = iconst(-1)
        vals[(G, ("rx%d_id" % (d + 1),))] = iconst(-1)
        vals[(D, ("ix%d_BCFun" % (d + 1),))] = Func("%s_ix%d" % (NAME[bc[2 * d]], d + 1))
        vals[(D, ("ox%d_BCFun" % (d + 1),))] = Func("%s_ox%d" % (NAME[bc[2 * d + 1]], d + 1))
    e = Engine(P, fs, {}, vals)
    e.nounroll = lambda c: "nghost" in ids(c)
    st, _ = run(e, "bvals_mhd", [(Ptr("D", (), I0, "obj"), DPTR)])
    e.bounds = bounds(vals)
    return e, st


def cimg(bc, lo, hi, c, where):
    """image index of a cell, (sign of normal momentum, of normal B, of tangential B)"""
    if where == "in":
        return c, 1, 1, 1
    N = iadd(isub(hi, lo), I1)
    low = where == "lo"
    if bc == 4:
        return (iadd(c, N) if low else isub(c, N)), 1, 1, 1
    if bc == 2:
        return (lo if low else hi), 1, 1, 1
    m = isub(isub(iadd(lo, lo), I1), c) if low else isub(iadd(iadd(hi, hi), I1), c)
    return m, -1, (-1 if bc == 1 else 1), (-1 if bc == 5 else 1)


def fimg(bcl, bch, lo, hi, f, where):
    if where == "first":
        return f, (0 if bcl == 1 else 1)
    if where == "last":
        return f, (0 if bch == 1 else 1)
    if where == "in":
        return f, 1
    low = where == "lo"
    bc = bcl if low else bch
    N = iadd(isub(hi, lo), I1)
    if bc == 4:
        return (iadd(f, N) if low else isub(f, N)), 1
    if bc == 2:
        return (lo if low else hi), 1
    h1 = iadd(hi, I1)
    return (isub(iadd(lo, lo), f) if low else isub(iadd(h1, h1), f)), (-1 if bc == 1 else 1)


def regions(e, dim, normal=None):
    """yield (where per direction, index symbols (i,j,k), facts)"""
    per = []
    for d in range(3):
        if d >= dim:
            per.append([("off", None)])
        elif d == normal:
            per.append([(w, d) for w in ("lo", "first", "in", "last", "hi")])
        else:
            per.append([(w, d) for w in ("lo", "in", "hi")])
    for combo in itertools.product(*per):
        idx, fs = [], []
        for d, (w, _) in enumerate(combo):
            lo, hi = e.bounds[d]
            if w == "off":
                idx.append(I0)
                continue
            if w == "first":
                idx.append(lo)
                continue
            if w == "last":
                idx.append(iadd(hi, I1))
                continue
            v = iatom(newvar("ijk"[d]))
            idx.append(v)
            nrm = d == normal
            a, b = {"lo": (isub(lo, iconst(NG - 1 if nrm else NG)), isub(lo, I1)),
                    "in": (iadd(lo, I1) if nrm else lo, hi),
                    "hi": (iadd(hi, iconst(2 if nrm else 1)), iadd(hi, iconst(NG)))}[w]
            fs += [ile(a, v), ile(v, b)]
        yield [w for w, _ in combo], idx, fs


def cond_of(t):
    """condition of the outermost choice in a (possibly negated) value"""
    while t.op == "neg":
        t = t.args[0]
    return t.args[0] if t.op == "ite" else None


def equal(F, got, want, depth=0):
    """True: proved, False: refuted for some index, None: not decided"""
    full = resolver(F)
    a, b = full(got), full(want)
    if a is b or rsub(a, b) is R0:
        return True, a, b
    c = cond_of(a)
    if c is not None and depth < 40:
        worst = (True, a, b)
        for g in (c, bnot(c)):
            if prove(F, bnot(g)):
                continue
            G2 = F.extend(g)
            if consistent(G2) == z3.unsat:
                continue
            r = equal(G2, a, b, depth + 1)
            if r[0] is False:
                return r
            if r[0] is None:
                worst = r
        return worst
    aa, bb = (x.args[0] if x.op == "neg" else x for x in (a, b))
    plain = lambda x: x.op in ("sel0", "rc")
    if plain(aa) and plain(bb):
        # (signed) initial values: equal only if the indices are
        if a.op == b.op and aa.op == bb.op == "sel0" and aa.args[0] == bb.args[0]:
            diff = [bnot(ieq(x, y)) for x, y in zip(aa.args[1], bb.args[1])]
            if all(prove(F, ieq(x, y)) for x, y in zip(aa.args[1], bb.args[1])):
                return True, a, b
            if consistent(F.extend(bor(*diff))) != z3.sat:
                return None, a, b
        elif consistent(F) != z3.sat:
            return None, a, b
        return False, a, b
    return None, a, b


def compare(e, st, obj, suf, idx, img, sign, fs, name, out):
    got = readloc(e, st, obj, tuple(reversed(idx)) + suf)
    want = readloc(e, State({}, ()), obj, tuple(reversed(img)) + suf)
    want = want if sign == 1 else rneg(want) if sign == -1 else R0
    ok, a, b = equal(e.facts, got, want)
    if ok:
        out.append(R("proved", name=name))
    elif ok is False:
        out.append(R("failed", "holds %s instead of %s" % (show(a, 3), show(b, 3)), name=name))
    else:
        out.append(R("unknown", "value %s, expected %s" % (show(a, 4)[:300], show(b, 3)[:200]), name=name))


def check(g, dim, bc):
    e, st = run_bc(g, dim, bc)
    out = []
    base = e.facts
    for where, idx, fs in regions(e, dim):
        e.facts = base.extend(*fs)
        img, sM, sn, stt = [], [], [], []
        for d in range(3):
            if where[d] == "off":
                img.append(I0)
                sM.append(1), sn.append(1), stt.append(1)
                continue
            lo, hi = e.bounds[d]
            m, a, b, c = cimg(bc[2 * d + (where[d] == "hi")], lo, hi, idx[d], where[d])
            img.append(m)
            sM.append(a), sn.append(b), stt.append(c)
        for suf in leaf_cons(e.P):
            s = 1
            if suf[0] in ("M1", "M2", "M3"):
                s = sM[int(suf[0][1]) - 1]
            if suf[0] in ("B1c", "B2c", "B3c"):
                n = int(suf[0][1]) - 1
                for d in range(3):
                    s *= sn[d] if d == n else stt[d]
            compare(e, st, "G.U", suf, idx, img, s, fs, "U.%s in zone %s" % (".".join(suf), "/".join(where[:dim])), out)
    if g == "MHD":
        for n in range(3):
            for where, idx, fs in regions(e, dim, n if n < dim else None):
                e.facts = base.extend(*fs)
                img, s = [], 1
                for d in range(3):
                    if where[d] == "off":
                        img.append(I0)
                        continue
                    lo, hi = e.bounds[d]
                    if d == n:
                        m, t = fimg(bc[2 * d], bc[2 * d + 1], lo, hi, idx[d], where[d])
                    else:
                        m, _, _, t = cimg(bc[2 * d + (where[d] == "hi")], lo, hi, idx[d], where[d])
                    img.append(m)
                    s *= t
                compare(e, st, "G.B%di" % (n + 1), (), idx, img, s, fs, "B%di in zone %s" % (n + 1, "/".join(where[:dim])), out)
    e.facts = base
    out[0]["functions"] = ["bvals_mhd"] + sorted({"%s_%sx%d" % (NAME[bc[k]], "io"[k % 2], k // 2 + 1) for k in range(2 * dim)})
    return out


MPTR = ptr(CT("struct", "Mesh_s"))


def flag(g, side, f):
    """bvals_mhd_init() selects the function named by the flag (one level, one domain, whole mesh)"""
    P = program(["bvals_mhd.c"], GAS=g, NSCALARS="1")
    s = "%sx%d" % ("io"[side % 2], side // 2 + 1)
    fs = []
    vals = {("M", ("NLevels",)): I1}
    e = Engine(P, fs, {}, vals)
    st = State({}, ())
    D0 = ("M", ("Domain",))
    vals[("M", ("DomainsPerLevel",))] = Ptr("DPL", (), I0, "arr")
    vals[("DPL", ("[]",))] = I1
    vals[("M", ("Domain",))] = Ptr("DD", (), I0, "arr")
    dom = ("DD", ("[]", "[]"))
    for d in range(3):
        N = isym("N%d" % (d + 1))
        fs.append(ile(iconst(2), N))
        vals[("M", ("Nx", "#%d" % d))] = N
        vals[("DD", ("[]", "[]", "Nx", "#%d" % d))] = N
        vals[("DD", ("[]", "[]", "Disp", "#%d" % d))] = I0
        vals[("G", ("Nx", "#%d" % d))] = N
        for b in "io":
            vals[("DD", ("[]", "[]", "%sx%d_BCFun" % (b, d + 1)))] = NULL
            vals[("M", ("BCFlag_%sx%d" % (b, d + 1),))] = iconst(f if "%sx%d" % (b, d + 1) == s else 4 if f == 4 else 2)
    vals[("DD", ("[]", "[]", "Grid"))] = Ptr("G", (), I0, "obj")
    e = Engine(P, fs, {}, vals)
    st, _ = run(e, "bvals_mhd_init", [(Ptr("M", (), I0, "obj"), MPTR)])
    key, idx = e.loc("DD", (I0, I0, s + "_BCFun"))
    v = e.lookup(st, key, ptr(CT("func")), idx)
    want = "%s_%s" % (NAME[f], s)
    nm = "bc_%s=%d selects %s" % (s, f, want)
    if isinstance(v, Func):
        return [R("proved" if v.name == want else "failed", "selected %s" % v.name, name=nm, functions=["bvals_mhd_init"])]
    return [R("unknown", "selected %r" % (v,), name=nm)]


def jobs(tier="quick"):
    A = []
    for n in ((8, 1, 1), (8, 6, 1), (6, 7, 5)):
        for b in COMBOS + MIXED + [(5, 1, 2, 2, 4, 4)]:
            A.append(list(n) + [harn.seed()] + list(b))
    return [("bc.c", dict(GAS=g, NSCALARS=ns), (), A) for g in ("HYDRO", "MHD") for ns in ("0", "2")]


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
