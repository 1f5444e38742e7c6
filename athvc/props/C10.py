"""one step is equivariant: relabelled or mirrored axes, every cell alike, ignorable dimensions, uniform states"""
import re
from ..integ import *
from ..equiv import *
from ..runner import R
from .. import harn
from ._integ import realconf
TITLE = "A step treats all axes, both directions along an axis and all cells alike"
LEVEL = "proof"
LIMIT = {"quick": 400, "thorough": 900}
ASSUMPTIONS = ["contracts of fluxes() and lr_states(): functions of their arguments that commute with the exchange and the reversal of "
               "transverse components and with reflection (obligations of C05 and C07); lr_states() at an interface reads two cells either side of the upstream cell",
               "contract of cc_pos(): linear in the index; the static potential is a function of position",
               "first-order flux correction, H-correction and special relativity only by the compiled companion runs (bounded)",
               "the interface field is divergence free (vector potential) in the dimension-embedding obligations"]
BACKENDS = ["symbolic execution of the integrators", "canonical forms over uninterpreted fluxes()/lr_states() (exact rational coefficients, ordered sign-decision diagrams)"]


def tasks(tier):
    out = []
    for gas in ("MHD", "HYDRO"):
        for dim in (3, 2, 1):
            for integ in ("vl", "ctu"):
                for eos, grav in (("ADIABATIC", True), ("ISOTHERMAL", False)):
                    if tier == "quick" and (gas, dim, eos) == ("MHD", 3, "ISOTHERMAL"):
                        continue
                    out.append(("%s %s %s %dD%s" % (gas, eos, integ, dim, " with potential" if grav else ""), "check",
                                (gas, eos, integ, dim, grav)))
    return out


def phi(eng, st, args):
    return app("phi", [a for a, _ in args])


def ccpos(eng, st, args):
    for n in range(3):
        obj, path, ty = eng.deref(args[4 + n][0], args[4 + n][1], st)
        eng.write(st, obj, path, ty, base_sel("pos%d" % (n + 1), [args[1 + n][0]], "r"))


ID = {1: 1, 2: 2, 3: 3}


class View:
    """reads of the final state of one integrator run at a generic cell, reduced with a leaf interpretation"""

    def __init__(self, C, e, st, dim, fx, gas):
        self.C, self.e, self.st, self.dim, self.gas = C, e, st, dim, gas
        self.ix, _, self.F = cell(e, dim, fx)

    def S(self, n):
        return self.C.of(self.C.atom(("sym", n)))

    def L(self, n, off):
        return self.C.of(self.C.atom(("leaf", n, tuple(off))))

    def evaluator(self, perm=ID, mir=None, mode=None, edim=None):
        C, gas = self.C, self.gas
        C.F = self.F

        def ren(nm):
            return re.sub(r"(dx|\.M|\.B|lx|rx)([123])(?=[ci]?\b|\[)", lambda m: m.group(1) + str(perm[int(m.group(2))]), nm)

        def sym(n):
            if gas == "HYDRO" and "Bx" in n:
                return C.const(0)
            return self.S(ren(n))

        def leaf(nm, idx):
            if gas == "HYDRO" and nm.startswith("Bx"):
                return C.const(0)
            if nm.startswith("pos"):
                a = int(nm[3])
                o = ival(isub(idx[0], self.ix[3 - a]))
                if o is None:
                    raise Unsupported("position index")
                return C.add(self.S("X%d" % perm[a]), C.scale(self.S("G.dx%d" % perm[a]), o))
            off = [ival(isub(a, b)) for a, b in zip(idx, self.ix)]
            if None in off or not nm.startswith("G."):
                raise Unsupported("leaf %s %s" % (nm, [show(x) for x in idx]))
            if mode == "uniform":
                m = re.match(r"G\.B([123])i", nm)
                return self.L("G.U[][][].B%sc" % m.group(1) if m else nm, (0, 0, 0))
            if mode == "embed":
                # data independent of the directions above edim; divergence-free interface field
                for d in range(edim + 1, 4):
                    off[3 - d] = 0
                m = re.match(r"G\.B([123])i", nm)
                if m:
                    a = int(m.group(1))
                    if a > edim:
                        return self.L("G.U[][][].B%dc" % a, off)
                    if edim == 1:
                        return self.S("B1const")
                    A = lambda dj, di: self.L("A3", (0, off[1] + dj, off[2] + di))
                    if a == 1:
                        return C.mul(C.add(A(1, 0), C.scale(A(0, 0), -1)), C.inv(self.S("G.dx2")))
                    return C.mul(C.add(A(0, 0), C.scale(A(0, 1), -1)), C.inv(self.S("G.dx1")))
                if nm.endswith(".B1c") and edim == 1:
                    return self.S("B1const")
                if nm.endswith((".B1c", ".B2c")) and edim == 2:
                    # average of the interface values
                    f = lambda a, dj, di: leaf("G.B%di" % a, (iadd(self.ix[0], iconst(0)), iadd(self.ix[1], iconst(off[1] + dj)), iadd(self.ix[2], iconst(off[2] + di))))
                    p = C.add(f(1, 0, 0), f(1, 0, 1)) if nm.endswith("B1c") else C.add(f(2, 0, 0), f(2, 1, 0))
                    return C.scale(p, Fraction(1, 2))
                return self.L(nm, off)
            sg = 1
            if mir:
                off[3 - mir] = -off[3 - mir]
                if nm.startswith("G.B%di" % mir):
                    off[3 - mir] += 1
                if nm.startswith("G.B%di" % mir) or nm.endswith((".M%d" % mir, ".B%dc" % mir)):
                    sg = -1
            new = [0] * 3
            for a in (1, 2, 3):
                new[3 - perm[a]] = off[3 - a]
            return C.scale(self.L(ren(nm), new), sg)

        def ph(args):
            if mir:
                dd = C.atom(("sym", "G.dx%d" % mir))
                args = tuple(frozenset((m, -c if m == ((dd, 1),) else c) for m, c in x) if n == mir - 1 else x for n, x in enumerate(args))
            out = [0] * 3
            for a in (1, 2, 3):
                out[perm[a] - 1] = args[a - 1]
            if mode == "embed":
                out = [x if n < edim else C.const(0) for n, x in enumerate(out)]
            if mode == "uniform":
                return ()
            return tuple(out)
        return C.evaluator(leaf, sym, dict(getattr(self, "extra", {}), phi=ph))

    def u(self, f):
        return readloc(self.e, self.st, "G.U", self.ix + f)

    def b(self, a, up=0):
        ix = list(self.ix)
        ix[3 - a] = iadd(ix[3 - a], iconst(up))
        return readloc(self.e, self.st, "G.B%di" % a, tuple(ix))


def fields(gas, eos):
    return [("d",), ("M1",), ("M2",), ("M3",)] + ([("E",)] if eos == "ADIABATIC" else []) + [("s", "#0")] + \
        ([("B1c",), ("B2c",), ("B3c",)] if gas == "MHD" else [])


def pf(f, perm):
    return (f[0][0] + str(perm[int(f[0][1])]) + f[0][2:],) if f[0][0] in "MB" else f


def integ_run(gas, eos, integ, dim, grav):
    Engine.cfgname = gas
    con = {"lr_states": lr_functional(2)}
    ve = {}
    if grav:
        con.update(gpot=phi, cc_pos=ccpos)
        ve = {("StaticGravPot", ()): Func("gpot")}
    return run_integrator(dim, integ, con, vals_extra=ve, GAS=gas, EOS=eos, NSCALARS="1", ACCURACY="SECOND_ORDER_PRIM")


def check(gas, eos, integ, dim, grav):
    e, st = integ_run(gas, eos, integ, dim, grav)
    side = e.stats["disjoint"] + e.stats["membership"] + e.stats["head_resolved"]
    out = [R("proved", obligations=side, name="loop-frame side conditions", functions=sorted(e.stats["inlined"]), assumed=sorted(e.stats["contract_calls"]))]
    C = Canon(None, exch=symmetries(e.P, 2), rules=(consistency(e.P, 2),))

    def ob(name, a, b):
        r, w = compare(C, a, b)
        if r == "equal":
            out.append(R("proved", name=name))
        elif r == "sampled":
            out.append(R("bounded", "canonical forms differ textually, equal at 3 sampled interpretations", name=name))
        else:
            out.append(R("failed", "values %r and %r for a fluxes()/lr_states() within contract" % w, name=name))
    V = View(C, e, st, dim, ("inner",) * dim, gas)
    v0 = V.evaluator()
    ref = {f: v0(V.u(f)) for f in fields(gas, eos)}
    if gas == "MHD":
        for a in range(1, dim + 1):
            ref["B%di" % a] = v0(V.b(a))
            ref["B%di+" % a] = v0(V.b(a, 1))
    # every cell (and last face) alike
    for fx in cases(dim):
        if "last" not in fx:
            continue
        W = View(C, e, st, dim, fx, gas)
        w0 = W.evaluator()
        for f in fields(gas, eos):
            ob("cell %s: %s as in the interior" % ("/".join(fx), ".".join(f)), w0(W.u(f)), ref[f])
        if gas == "MHD":
            for a in range(1, dim + 1):
                ob("cell %s: B%di as in the interior" % ("/".join(fx), a), w0(W.b(a)), ref["B%di" % a])
                ob("cell %s: upper B%di as in the interior" % ("/".join(fx), a), w0(W.b(a, 1)), ref["B%di+" % a])
    # relabelled axes, mirror images
    rels = [("mirrored x%d" % a, ID, a) for a in range(1, dim + 1)]
    if dim == 3:
        rels = [("cyclic relabelling", {1: 2, 2: 3, 3: 1}, None), ("x1 and x2 exchanged", {1: 2, 2: 1, 3: 3}, None)] + rels
    if dim == 2:
        rels = [("x1 and x2 exchanged", {1: 2, 2: 1, 3: 3}, None)] + rels
    if dim == 1:
        rels.append(("x2 and x3 exchanged", {1: 1, 2: 3, 3: 2}, None))
    for nm, perm, mir in rels:
        v1 = V.evaluator(perm, mir)
        for f in fields(gas, eos):
            g = pf(f, perm)
            b = ref[g]
            if mir and f[0] in ("M%d" % mir, "B%dc" % mir):
                b = C.scale(b, -1)
            ob("%s: %s" % (nm, ".".join(f)), v1(V.u(f)), b)
        if gas == "MHD":
            for a in range(1, dim + 1):
                if perm[a] > dim:
                    continue
                b = C.scale(ref["B%di+" % a], -1) if mir == a else ref["B%di" % perm[a]]
                ob("%s: B%di" % (nm, a), v1(V.b(a)), b)
    # uniform state, constant potential
    if True:
        v1 = V.evaluator(mode="uniform")
        for f in fields(gas, eos):
            n = "G.U[][][]." + f[0] + ("[0]" if len(f) > 1 else "")
            t0 = v1(readloc(e, S0, "G.U", V.ix + f))
            ob("uniform state: %s unchanged" % ".".join(f), v1(V.u(f)), t0)
        if gas == "MHD":
            for a in range(1, dim + 1):
                ob("uniform state: B%di unchanged" % a, v1(V.b(a)), v1(readloc(e, S0, "G.B%di" % a, V.ix)))
    # data varying in fewer directions: the lower-dimensional integrator gives the same values
    for edim in range(1, dim):
        e2, st2 = integ_run(gas, eos, integ, edim, grav)
        V2 = View(C, e2, st2, edim, ("inner",) * edim, gas)
        w = V2.evaluator(mode="embed", edim=edim)
        v = V.evaluator(mode="embed", edim=edim)
        # evaluate each with its own index facts
        for f in fields(gas, eos):
            C.F = V.F
            x = v(V.u(f))
            C.F = V2.F
            ob("%dD data in the %dD integrator: %s" % (edim, dim, ".".join(f)), x, w(V2.u(f)))
        if gas == "MHD":
            for a in range(1, edim + 1):
                C.F = V.F
                x = v(V.b(a))
                C.F = V2.F
                ob("%dD data in the %dD integrator: B%di" % (edim, dim, a), x, w(V2.b(a)))
    return out


PA = [[8, 1, 1, 1, .1, 'p'], [8, 6, 1, 2, .1, 'p'], [6, 5, 7, 3, .1, 'p'], [8, 1, 1, 1, .1, 'd'], [8, 6, 1, 2, .1, 'd'], [6, 5, 7, 3, .3, 'u'],
      [8, 7, 1, 5, .3, 'z'], [6, 5, 7, 6, .3, 'z']]


def jobs():
    C, V = "CTU_INTEGRATOR", "VL_INTEGRATOR"
    J = []

    def t(defs=(), args=PA, **k):
        J.append(("equiv.c", k, defs, args))
    for g in ("HYDRO", "MHD"):
        for i, a in ((C, "SECOND_ORDER_CHAR"), (V, "SECOND_ORDER_PRIM"), (C, "THIRD_ORDER_CHAR")):
            t(("GRAV",), [x for x in PA if x[5] in 'pz'], GAS=g, INTEGRATOR_DEF=i, ACCURACY=a)
        t(GAS=g, INTEGRATOR_DEF=C, ACCURACY="THIRD_ORDER_PRIM")
        t(GAS=g, EOS="ISOTHERMAL", INTEGRATOR_DEF=C)
        t(GAS=g, EOS="ISOTHERMAL", INTEGRATOR_DEF=V, ACCURACY="SECOND_ORDER_PRIM")
        t(GAS=g, FOFC_MODE="FIRST_ORDER_FLUX_CORRECTION", INTEGRATOR_DEF=V, ACCURACY="SECOND_ORDER_PRIM")
        t((), [x for x in PA if x[5] in 'pu'], GAS=g, H_CORRECTION_MODE="H_CORRECTION", INTEGRATOR_DEF=C)
        t((), [x for x in PA if x[5] != "z"], GAS=g, SPECIAL_RELATIVITY_MODE="SPECIAL_RELATIVITY", FLUX_DEF="HLLC_FLUX", INTEGRATOR_DEF=V, ACCURACY="SECOND_ORDER_PRIM")
        t(GAS=g, MESH_REFINEMENT="STATIC_MESH_REFINEMENT", INTEGRATOR_DEF=C)
    return J


def replay(tier, bad, unk):
    return harn.sweep(jobs())


def smoke(tier):
    return harn.sweep(jobs())
