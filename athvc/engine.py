"""Symbolic execution / VC generation for the C of /repo over mathematical integers and reals.

Loops with symbolic bounds are summarised for ALL iterations by the parallel-loop rule
  (loop-head memory = unknown for everything the body may modify; a loop-head read is replaced
   by the pre-loop value only when no other iteration writes the location read; the loop's effect
   is the quantified update  forall v in dom. A[idx(v)] := val(v)  only when different iterations
   provably write different locations; otherwise the location is left unknown)
and by the induction rule for counters/pointers stepped by a constant and for sum/max/min
accumulators.  Every side condition is an integer entailment discharged by intprove.prove.
A caller sees a callee either inlined or by its contract (self.contracts)."""
import re
from pycparser import c_ast as A
from .terms import *
from . import intprove
from .intprove import Facts, prove
from .cfg import ToolError


class Unsupported(ToolError):
    pass


# ------------------------------------------------------------------ C types
class CT:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        return "%s(%s,%s)" % (self.k, self.a, self.b) if self.a is not None else self.k


INT = CT("int")
REAL = CT("real")
VOID = CT("void")
CHAR = CT("char")


def ptr(t):
    return CT("ptr", t)


# ------------------------------------------------------------------ values
class Ptr:
    """pointer: element `off` of the array at (obj,path); mode arr|fix|obj|flat"""
    __slots__ = ("obj", "path", "off", "mode", "ety")

    def __init__(self, obj, path=(), off=I0, mode="arr", ety=None):
        self.obj = obj
        self.path = path
        self.off = off
        self.mode = mode
        self.ety = ety

    def key(self):
        return (self.obj, self.path, self.off, self.mode)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "&%s%s+%s" % (self.obj, list(self.path), self.off)


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class Func:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Func) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class Str:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Opaque:
    """a non-numeric value about which nothing is known"""
    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return "opaque:%s" % self.what


class SV:
    """struct value: leaf region-suffix -> value"""
    __slots__ = ("ty", "leaves")

    def __init__(self, ty, leaves):
        self.ty = ty
        self.leaves = leaves


# ------------------------------------------------------------------ array versions
class Node:
    __slots__ = ("prev",)


class Base(Node):
    """uninterpreted contents; name, scope vars prepended to the index"""
    __slots__ = ("name", "scope", "sort", "val")

    def __init__(self, name, sort, scope=(), val=None):
        self.prev = None
        self.name = name
        self.sort = sort
        self.scope = tuple(scope)
        self.val = val       # constant contents (e.g. calloc'ed zeros) or None


class Store(Node):
    __slots__ = ("idx", "val")

    def __init__(self, prev, idx, val):
        self.prev = prev
        self.idx = idx
        self.val = val


class LoopStore(Node):
    """forall vars in dom: A[idx(vars)] := val(vars); d = Def(formals=scope+vars)"""
    __slots__ = ("vars", "dom", "idx", "d", "scope")

    def __init__(self, prev, vars, dom, idx, d, scope):
        self.prev = prev
        self.vars = tuple(vars)
        self.dom = tuple(dom)
        self.idx = tuple(idx)
        self.d = d
        self.scope = tuple(scope)


class Mux(Node):
    __slots__ = ("c", "a", "b", "base")

    def __init__(self, c, a, b, base):
        self.prev = base
        self.c = c
        self.a = a
        self.b = b


class Head(Node):
    """contents at the head of an iteration of a loop (unknown; reads recorded)"""
    __slots__ = ("pre", "sites", "scope", "name", "sort", "var", "loop")

    def __init__(self, pre, scope, name, sort):
        self.prev = None
        self.pre = pre
        self.scope = tuple(scope)
        self.sites = []
        self.name = name
        self.sort = sort


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


_fresh = [0]


def fresh(s):
    _fresh[0] += 1
    return "%s!%d" % (s, _fresh[0])


NORETURN = {"ath_error", "exit", "abort", "MPI_Abort"}
IGNORED = {"printf", "fprintf", "ath_pout", "ath_perr", "fflush", "free", "free_1d_array", "free_2d_array",
           "free_3d_array", "ath_log_set_level", "fclose", "puts", "fputs", "flush", "ath_flush_out", "ath_flush_err"}
MATH1 = {"sqrt", "exp", "log", "log10", "sin", "cos", "tan", "atan", "acos", "asin", "sinh", "cosh", "tanh",
         "floor", "ceil", "cbrt", "erf", "round", "trunc", "asinh", "acosh", "atanh", "rint"}
MATH2 = {"pow", "atan2", "fmod", "hypot", "copysign"}


class Program:
    """a set of parsed translation units: types, globals, functions"""

    def __init__(self, asts):
        self.funcs = {}
        self.structs = {}
        self.typedefs = {}
        self.enums = {}
        self.globals = {}
        self.ginit = {}
        self.fileof = {}
        self.protos = {}
        for name, ast in asts:
            for ext in ast.ext:
                self._ext(ext, name)

    def _ext(self, ext, fname):
        if isinstance(ext, A.FuncDef):
            n = ext.decl.name
            if n in self.funcs and "static" in (ext.decl.storage or []):
                pass
            self.funcs[n] = ext
            self.fileof[n] = fname
            self._scan_types(ext.decl.type)
        elif isinstance(ext, A.Typedef):
            self._scan_types(ext.type)
            self.typedefs[ext.name] = ext.type
        elif isinstance(ext, A.Decl):
            self._scan_types(ext.type)
            if isinstance(ext.type, A.FuncDecl):
                self.protos[ext.name] = ext.type
            elif ext.name:
                self.globals[ext.name] = ext.type
                if ext.init is not None:
                    self.ginit[ext.name] = ext.init
        elif isinstance(ext, A.Pragma):
            pass

    def _scan_types(self, t):
        if isinstance(t, (A.TypeDecl, A.PtrDecl, A.ArrayDecl, A.FuncDecl)):
            self._scan_types(t.type)
        elif isinstance(t, (A.Struct, A.Union)):
            if t.decls is not None:
                name = t.name or ("anon%d" % id(t))
                self.structs[name] = t
                for d in t.decls:
                    self._scan_types(d.type)
        elif isinstance(t, A.Enum):
            self._enum(t)

    def _enum(self, t):
        if t.values is None:
            return
        v = -1
        for e in t.values.enumerators:
            if e.value is None:
                v += 1
            else:
                v = self.const(e.value)
            self.enums[e.name] = v

    def const(self, e):
        if isinstance(e, A.Constant):
            s = e.value.rstrip("uUlL")
            return int(s, 0)
        if isinstance(e, A.ID):
            return self.enums[e.name]
        if isinstance(e, A.BinaryOp):
            a, b = self.const(e.left), self.const(e.right)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b,
                    "<<": lambda: a << b}[e.op]()
        if isinstance(e, A.UnaryOp) and e.op == "-":
            return -self.const(e.expr)
        if isinstance(e, A.Cast):
            return self.const(e.expr)
        raise Unsupported("constant expression %s" % type(e).__name__)

    def ctype(self, t):
        if isinstance(t, A.Typename):
            return self.ctype(t.type)
        if isinstance(t, A.Decl):
            return self.ctype(t.type)
        if isinstance(t, A.TypeDecl):
            return self.ctype(t.type)
        if isinstance(t, A.PtrDecl):
            return CT("ptr", self.ctype(t.type))
        if isinstance(t, A.ArrayDecl):
            n = None
            if t.dim is not None:
                try:
                    n = self.const(t.dim)
                except (Unsupported, KeyError):
                    n = None
            return CT("arr", self.ctype(t.type), n)
        if isinstance(t, A.FuncDecl):
            return CT("func", t)
        if isinstance(t, A.IdentifierType):
            names = t.names
            if names == ["void"]:
                return VOID
            if any(n in ("double", "float") for n in names):
                return REAL
            if "char" in names:
                return CHAR
            if any(n in ("int", "long", "short", "unsigned", "signed") for n in names):
                return INT
            n = names[0]
            if n == "Real":
                return REAL
            if n in self.typedefs:
                return self.ctype(self.typedefs[n])
            raise Unsupported("type " + n)
        if isinstance(t, (A.Struct, A.Union)):
            name = t.name or ("anon%d" % id(t))
            if t.decls is not None and name not in self.structs:
                self._scan_types(t)
            return CT("struct", name)
        if isinstance(t, A.Enum):
            self._enum(t)
            return INT
        raise Unsupported("type node " + type(t).__name__)

    _fcache = None

    def fields(self, sname):
        if self._fcache is None:
            self._fcache = {}
        r = self._fcache.get(sname)
        if r is None:
            s = self.structs.get(sname)
            if s is None:
                raise Unsupported("struct %s has no definition" % sname)
            r = [(d.name, self.ctype(d.type)) for d in s.decls]
            self._fcache[sname] = r
        return r

    def field(self, sname, f):
        for n, t in self.fields(sname):
            if n == f:
                return t
        raise Unsupported("no field %s in %s" % (f, sname))

    def leaves(self, t):
        """region suffixes of the scalar leaves of a type"""
        if t.k == "struct":
            out = []
            for n, ft in self.fields(t.a):
                out += [((n,) + s, lt) for s, lt in self.leaves(ft)]
            return out
        if t.k == "arr":
            if t.b is None:
                raise Unsupported("array without size")
            out = []
            for i in range(t.b):
                out += [(("#%d" % i,) + s, lt) for s, lt in self.leaves(t.a)]
            return out
        return [((), t)]


def sortof(t):
    return {"int": "i", "char": "i", "real": "r"}.get(t.k)


SINGLES = {"Grid_s", "Domain_s", "Mesh_s", "Output_s", "_FILE_s"}


class Engine:
    def __init__(self, prog, facts=(), contracts=None, values=None, unroll=200, noinline=()):
        self.P = prog
        self.facts = Facts(list(facts))
        self.contracts = dict(contracts or {})
        self.values = dict(values or {})     # initial values: ('obj', region) -> value  (preconditions)
        self.noinline = set(noinline)
        self.scopevars = ()                  # enclosing symbolic loop variables
        self.frames = []
        self.maxunroll = unroll
        self.nounroll = None      # predicate on a loop condition (AST): summarise instead of unrolling
        self.loopmods = {}                   # cache: loop ast id -> modified keys
        self.objtypes = {}                   # (obj,region) -> sort
        self.stats = {"loops": 0, "stores": 0, "merges": 0, "calls": {}, "inlined": {}, "contract_calls": {},
                      "head_resolved": 0, "head_opaque": 0, "disjoint": 0, "havoc_post": 0, "folds": 0, "membership": 0}
        self.static_objs = {}
        self.trace = []
        self.calldepth = 0
        self.notes = []
        self.post_wanted = None
        self.fallback = None
        self.nondet_loops = True
        self.singles = set(SINGLES)
        self.loophint = {}

    # ---------------------------------------------------------------- facts
    def ctx(self, st, *more):
        fs = [f for f in st.pc] + list(more)
        if not fs:
            return self.facts
        return self._ctx(tuple(fs))

    def _ctx(self, fs):
        cache = self.__dict__.setdefault("_ctxcache", {})
        key = (id(self.facts), fs)
        r = cache.get(key)
        if r is None:
            r = self.facts.extend(*fs)
            cache[key] = r
        return r

    def entails(self, st, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in st.pc:
            return True
        if not self._int_only(b):
            # real-valued condition: only syntactic knowledge
            return b in self.facts._key
        return prove(self.ctx(st), b)

    _io = {}

    def _int_only(self, b):
        r = self._io.get(b)
        if r is None:
            r = b.op in ("ile0", "ieq0") or (b.op in ("not", "and", "or") and all(self._int_only(x) for x in b.args))
            self._io[b] = r
        return r

    # ---------------------------------------------------------------- memory
    def loc(self, obj, path):
        """(obj,path) -> (key, idx)"""
        region = []
        idx = []
        for p in path:
            if isinstance(p, str):
                region.append(p)
            else:
                region.append("[]")
                idx.append(p)
        return (obj, tuple(region)), tuple(idx)

    def initial(self, key, ty, idx):
        """value of a location in the initial state"""
        obj, region = key
        if key in self.values:
            v = self.values[key]
            if callable(v):
                v = v(self, idx)
            return v
        name = obj + "".join("[]" if r == "[]" else ("[" + r[1:] + "]" if r[0] == "#" else "." + r) for r in region)
        if ty.k == "ptr":
            if ty.a.k == "func":
                return Func("*" + name)
            scope = ""
            if idx:
                scope = "<" + ",".join(show(i) for i in idx) + ">"
            return Ptr(name + scope, (), I0, "obj" if ty.a.k == "struct" and ty.a.a in self.singles else "arr")
        if ty.k == "func":
            return Func(name)
        s = sortof(ty)
        if s is None:
            return Opaque(name)
        if idx:
            return base_sel(name, idx, s)
        return isym(name) if s == "i" else rsym(name)

    def lookup(self, st, key, ty, idx):
        """read a scalar location"""
        v = st.mem.get(key)
        if not idx:
            if v is None:
                v = self.initial(key, ty, ())
                st.mem[key] = v
            return v
        if v is None:
            if ty.k in ("ptr", "func"):
                return self.initial(key, ty, idx)
            if key in self.values:
                iv = self.values[key]
                return iv(self, idx) if callable(iv) else iv
            v = self.basenode(key, ty)
            st.mem[key] = v
        if isinstance(v, dict):   # table of non-numeric values (e.g. pointers stored by constant index)
            r = v.get(idx)
            if r is None:
                return self.initial(key, ty, idx)
            return r
        return self.read(v, idx, self.ctx(st))

    def basenode(self, key, ty):
        obj, region = key
        name = obj + "".join("[]" if r == "[]" else ("[" + r[1:] + "]" if r[0] == "#" else "." + r) for r in region)
        s = sortof(ty)
        if s is None:
            raise Unsupported("array of %s at %s" % (ty, name))
        return Base(name, s)

    def read(self, node, idx, F):
        """value of array version `node` at idx, under facts F"""
        guards = []
        while True:
            if isinstance(node, Base):
                if node.val is not None:
                    r = node.val
                else:
                    r = base_sel(node.name, tuple(iatom(s) for s in node.scope) + tuple(idx), node.sort)
                break
            if isinstance(node, Head):
                r = self.headread(node, idx, F)
                break
            if isinstance(node, Store):
                eqs = [ieq(a, b) for a, b in zip(node.idx, idx)]
                c = band(*eqs)
                if c is TRUE or (c is not FALSE and prove(F, c)):
                    r = node.val
                    break
                if c is FALSE or self._differ(F, eqs):
                    node = node.prev
                    continue
                guards.append((c, node.val))
                node = node.prev
                continue
            if isinstance(node, LoopStore):
                m, conds = self.solve(node, idx)
                if m is None:
                    raise Unsupported("cannot invert loop store index %s at %s" % (node.idx, idx))
                cond = band(*conds)
                self.stats["membership"] += 1
                if cond is TRUE or (cond is not FALSE and prove(F, cond)):
                    r = self.lsel(node, m)
                    break
                if cond is FALSE or self._excluded(F, conds):
                    node = node.prev
                    continue
                guards.append((cond, self.lsel(node, m)))
                node = node.prev
                continue
            if isinstance(node, Mux):
                a = self.read(node.a, idx, F)
                b = self.read(node.b, idx, F)
                r = ite(node.c, a, b)
                break
            raise Unsupported("node")
        for c, v in reversed(guards):
            r = ite(c, v, r)
        return r

    def _differ(self, F, eqs):
        for e in eqs:
            if e is TRUE:
                continue
            if prove(F, bnot(e), usez3=False):
                return True
        c = band(*eqs)
        return prove(F, bnot(c))

    def _excluded(self, F, conds):
        for c in conds:
            if c is TRUE:
                continue
            if c is FALSE or prove(F, bnot(c), usez3=False):
                return True
        return prove(F, bnot(band(*conds)))

    def lsel(self, node, m):
        act = []
        for f in node.d.formals:
            act.append(m.get(f, f))
        return inst(node.d, act)

    def solve(self, node, idx):
        """solve node.idx(vars) == idx for vars; returns (map, [conditions])"""
        return solve_idx(node.vars, node.idx, idx, node.dom)

    def headread(self, head, idx, F):
        scope = self.scopevars
        d = Def("head:" + head.name, scope, None, head.sort)
        head.sites.append((d, tuple(idx), F, scope))
        return inst(d, scope)

    def assign(self, st, key, ty, idx, val):
        self.stats["stores"] += 1
        if not idx:
            st.mem[key] = val
            return
        if not isinstance(val, T):
            v = st.mem.get(key)
            if isinstance(v, PTab):
                st.mem[key] = PTab(v.base, v.entries + [((), (), idx, val)])
                return
            nd = dict(v) if isinstance(v, dict) else {}
            nd[idx] = val
            st.mem[key] = nd
            return
        v = st.mem.get(key)
        if v is None:
            v = self.basenode(key, ty)
        st.mem[key] = Store(v, idx, val)

    # ---------------------------------------------------------------- evaluation
    def lval(self, e, st):
        """lvalue -> (obj, path, ctype)"""
        if isinstance(e, A.ID):
            obj, ty = self.var(e.name)
            return obj, (), ty
        if isinstance(e, A.StructRef):
            if e.type == "->":
                p, pt = self.eval(e.name, st)
                obj, path, ty = self.deref(p, pt, st)
            else:
                try:
                    obj, path, ty = self.lval(e.name, st)
                except _NotLvalue:
                    v, ty = self.eval(e.name, st)
                    tmp = fresh("tmp")
                    self.write(st, tmp, (), ty, v)
                    obj, path = tmp, ()
            if ty.k != "struct":
                raise Unsupported("field %s of %s" % (e.field.name, ty))
            return obj, path + (e.field.name,), self.P.field(ty.a, e.field.name)
        if isinstance(e, A.ArrayRef):
            b, bt = self.eval(e.name, st)
            i, it = self.eval(e.subscript, st)
            if isinstance(i, Ptr) or bt.k not in ("ptr", "arr"):
                b, bt, i, it = i, it, b, bt
            i = self.toint(i)
            if not isinstance(b, Ptr):
                raise Unsupported("indexing %r (%s)" % (b, getattr(e.name, "name", "")))
            q = Ptr(b.obj, b.path, iadd(b.off, i), b.mode, b.ety)
            return self.deref(q, bt, st)
        if isinstance(e, A.UnaryOp) and e.op == "*":
            p, pt = self.eval(e.expr, st)
            if isinstance(p, Func):
                raise _NotLvalue()
            return self.deref(p, pt, st)
        if isinstance(e, A.Cast):
            return self.lval(e.expr, st)
        raise _NotLvalue()

    def elem(self, p):
        """path of the element a pointer denotes"""
        if p.mode == "obj":
            if ival(p.off) != 0:
                raise Unsupported("pointer arithmetic on object pointer %r" % p)
            return p.path
        if p.mode == "fix":
            n = ival(p.off)
            if n is None:
                return p.path + (("sym", p.off),)
            return p.path + ("#%d" % n,)
        if p.mode == "flat":
            raise Unsupported("flat")
        return p.path + (p.off,)

    def deref(self, p, pt, st):
        if isinstance(p, Null):
            raise Unsupported("NULL dereference")
        if isinstance(p, CondPtr):
            raise Unsupported("dereference of conditional pointer")
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %r" % (p,))
        ty = pt.a
        if p.mode == "flat":
            n = ival(p.off)
            if n is None:
                raise Unsupported("symbolic index into a struct viewed as an array")
            lv = self.P.leaves(p.ety)
            if n < 0 or n >= len(lv):
                raise Unsupported("struct view index %d out of range" % n)
            return p.obj, p.path + lv[n][0], lv[n][1]
        path = self.elem(p)
        return p.obj, path, ty

    def singleton(self, obj, path):
        return obj, path

    def var(self, name):
        for fr in reversed(self.frames[-1:]):
            for sc in reversed(fr["scopes"]):
                if name in sc:
                    return sc[name]
        if name in self.P.globals:
            return name, self.P.ctype(self.P.globals[name])
        raise _NotVar(name)

    def rd(self, st, obj, path, ty):
        """rvalue at an lvalue"""
        for n, p in enumerate(path):
            if isinstance(p, tuple):    # symbolic index into fixed-size array
                raise Unsupported("symbolic index into fixed array %s%s" % (obj, path))
        if ty.k == "arr":
            if len(path) and not isinstance(path[-1], str) and False:
                pass
            return Ptr(obj, path, I0, "fix" if ty.b is not None else "arr")
        if ty.k == "struct":
            leaves = {}
            for suf, lt in self.P.leaves(ty):
                leaves[suf] = self.rd(st, obj, path + suf, lt)
            return SV(ty, leaves)
        if ty.k == "func":
            return Func(obj)
        if ty.k == "ptr":
            # multi-level heap arrays: T** elements are rows of the same object
            if path and not isinstance(path[-1], str):
                key, idx = self.loc(obj, path)
                v = st.mem.get(key)
                if isinstance(v, PTab):
                    r = self.readptab(st, v, idx)
                    if r is not None:
                        return r
                    v = v.base
                if isinstance(v, dict):
                    if idx in v:
                        return v[idx]
                    if "?" in v:
                        raise Unsupported("pointer table %s modified in a loop" % _kname(key))
                if key in self.values:
                    iv = self.values[key]
                    return iv(self, idx) if callable(iv) else iv
                if ty.a.k == "struct" and self.is_ptr_array(key):
                    return self.initial(key, ty, idx)
                return Ptr(obj, path, I0, "arr")
        key, idx = self.loc(obj, path)
        return self.lookup(st, key, ty, idx)

    def readptab(self, st, tab, idx):
        for (vars_, dom, idxf, p) in reversed(tab.entries):
            m, conds = solve_idx(vars_, idxf, idx, dom)
            if m is None:
                raise Unsupported("index into a pointer table")
            c = band(*conds) if conds else TRUE
            if self.entails(st, c):
                return _ptrsub(p, m)
            if not self.entails(st, bnot(c)):
                if getattr(self, "probing", 0):     # trial pass over a loop body, repeated once its range is known
                    return _ptrsub(p, m)
                raise Unsupported("index into a pointer table not known to be in the filled range")
        return None

    def is_ptr_array(self, key):
        return False

    def write(self, st, obj, path, ty, val):
        for n, p in enumerate(path):
            if isinstance(p, tuple):
                raise Unsupported("symbolic index into fixed array %s%s" % (obj, path))
        if ty.k == "struct":
            if isinstance(val, SV):
                for suf, lt in self.P.leaves(ty):
                    self.write(st, obj, path + suf, lt, val.leaves[suf])
                return
            raise Unsupported("struct assigned from %r" % (val,))
        if ty.k == "arr":
            raise Unsupported("array assignment")
        key, idx = self.loc(obj, path)
        self.assign(st, key, ty, idx, self.conv(val, ty))

    def conv(self, v, ty):
        if not isinstance(v, T):
            if isinstance(v, CondPtr):
                return v
            return v
        if ty.k == "real":
            if v.sort == "i":
                return i2r(v)
            if v.sort == "b":
                return ite(v, R1, R0)
            return v
        if ty.k in ("int", "char"):
            if v.sort == "b":
                return ite(v, I1, I0)
            if v.sort == "r":
                c = rval(v)
                if c is not None:
                    return iconst(int(c))
                if v.op == "i2r":
                    return v.args[0]
                return app("r2i", [v], "i")
            return v
        if ty.k in ("ptr",) and v.sort == "i" and ival(v) == 0:
            return NULL
        return v

    def toint(self, v):
        return self.conv(v, INT)

    def toreal(self, v):
        return self.conv(v, REAL)

    def tobool(self, v, ty=None):
        if isinstance(v, T):
            if v.sort == "b":
                return v
            if v.sort == "i":
                if v.op == "ip" and not v.args[0] and len(v.args[1]) == 1 and v.args[1][0][1] == 1 and \
                        len(v.args[1][0][0]) == 1 and v.args[1][0][0][0].op == "ite":
                    c, a, b = v.args[1][0][0][0].args
                    if ival(a) == 1 and ival(b) == 0:
                        return c
                return bnot(ieq(v, I0))
            return bnot(rcmp("==", v, R0))
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, (Ptr, Str)):
            return TRUE
        if isinstance(v, Func):
            if v.name.startswith("?"):
                return mk("app", ("isset", (v.name,)), "b")
            return TRUE
        if isinstance(v, CondPtr):
            return ite(v.c, self.tobool(v.a), self.tobool(v.b))
        return mk("app", (fresh("bool"), ()), "b")

    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        if e.type in ("int", "long int", "unsigned int", "long", "unsigned long int", "long long int"):
            return iconst(int(e.value.rstrip("uUlL"), 0)), INT
        if e.type in ("double", "float", "long double"):
            return rconst(_dec(e.value)), REAL
        if e.type == "char":
            return iconst(_chr(e.value)), CHAR
        if e.type == "string":
            return Str(e.value[1:-1]), ptr(CHAR)
        raise Unsupported("constant " + e.type)

    def e_ID(self, e, st):
        n = e.name
        try:
            obj, ty = self.var(n)
        except _NotVar:
            if n in self.P.enums:
                return iconst(self.P.enums[n]), INT
            if n in self.P.funcs or n in self.P.protos:
                return Func(n), CT("func", n)
            if n == "NULL":
                return NULL, ptr(VOID)
            raise Unsupported("unknown identifier " + n)
        v = self.rd(st, obj, (), ty)
        if ty.k == "arr":
            return v, ty
        return v, ty

    def e_StructRef(self, e, st):
        obj, path, ty = self.lval(e, st)
        return self.rd(st, obj, path, ty), ty

    def e_ArrayRef(self, e, st):
        obj, path, ty = self.lval(e, st)
        sym = [n for n, p in enumerate(path) if isinstance(p, tuple)]
        if sym:
            n = sym[0]
            return self.symfix(st, obj, path, n, ty), ty
        return self.rd(st, obj, path, ty), ty

    def symfix(self, st, obj, path, n, ty):
        off = path[n][1]
        # enumerate candidate constant indices present in memory
        cands = self.fixcands(st, obj, path[:n])
        if not cands:
            raise Unsupported("symbolic index into fixed array %s" % obj)
        r = None
        for c in sorted(cands):
            p2 = path[:n] + ("#%d" % c,) + path[n + 1:]
            v = self.rd(st, obj, p2, ty)
            r = v if r is None else ite(ieq(off, iconst(c)), v, r)
        return r

    def fixcands(self, st, obj, pre):
        key, idx = self.loc(obj, pre)
        n = len(key[1])
        out = set()
        for (o, reg) in st.mem:
            if o == obj and len(reg) > n and reg[:n] == key[1] and reg[n].startswith("#"):
                out.add(int(reg[n][1:]))
        return out

    def e_Cast(self, e, st):
        ty = self.P.ctype(e.to_type)
        v, vt = self.eval(e.expr, st)
        if ty.k == "ptr":
            if isinstance(v, Ptr):
                return self.castptr(v, vt, ty)
            if isinstance(v, T) and v.sort == "i" and ival(v) == 0:
                return NULL, ty
            return v, ty
        if ty.k == "void":
            return v, ty
        return self.conv(v, ty), ty

    def castptr(self, v, vt, ty):
        src = vt.a if vt.k in ("ptr", "arr") else None
        if src is not None and src.k == "struct" and ty.a.k == "real" and v.mode != "flat":
            return Ptr(v.obj, self.elem(v), I0, "flat", src), ty
        return v, ty

    def e_Typename(self, e, st):
        return None, self.P.ctype(e)

    def e_UnaryOp(self, e, st):
        op = e.op
        if op == "sizeof":
            if isinstance(e.expr, A.Typename):
                ty = self.P.ctype(e.expr)
            else:
                try:
                    obj, path, ty = self.lval(e.expr, st)
                except _NotLvalue:
                    v, ty = self.eval(e.expr, st)
            return self.sizeof(ty), INT
        if op == "&":
            if isinstance(e.expr, A.ID) and self.isfunc(e.expr.name):
                return Func(e.expr.name), ptr(CT("func", e.expr.name))
            # keep pointer arithmetic on &a[i]
            if isinstance(e.expr, A.ArrayRef):
                b, bt = self.eval(e.expr.name, st)
                i, _ = self.eval(e.expr.subscript, st)
                if isinstance(b, Ptr):
                    return Ptr(b.obj, b.path, iadd(b.off, self.toint(i)), b.mode, b.ety), ptr(bt.a)
            if isinstance(e.expr, A.UnaryOp) and e.expr.op == "*":
                return self.eval(e.expr.expr, st)
            obj, path, ty = self.lval(e.expr, st)
            return Ptr(obj, path, I0, "obj"), ptr(ty)
        if op == "*":
            try:
                obj, path, ty = self.lval(e, st)
            except _NotLvalue:
                return self.eval(e.expr, st)
            if any(isinstance(p, tuple) for p in path):
                n = [i for i, p in enumerate(path) if isinstance(p, tuple)][0]
                return self.symfix(st, obj, path, n, ty), ty
            return self.rd(st, obj, path, ty), ty
        if op in ("++", "--", "p++", "p--"):
            old, ty = self.eval(e.expr, st)
            d = iconst(1 if "+" in op else -1)
            new = self.add(old, ty, d, INT)
            self.store_to(e.expr, st, new)
            return (old if op.startswith("p") else new), ty
        v, ty = self.eval(e.expr, st)
        if op == "-":
            if isinstance(v, T) and v.sort == "r":
                return rneg(v), ty
            return ineg(self.toint(v)), INT
        if op == "+":
            return v, ty
        if op == "!":
            return bnot(self.tobool(v)), INT
        if op == "~":
            raise Unsupported("bitwise")
        raise Unsupported("unary " + op)

    def isfunc(self, n):
        try:
            self.var(n)
            return False
        except _NotVar:
            return n in self.P.funcs or n in self.P.protos

    def sizeof(self, ty):
        return isym("sizeof_%s" % (ty.a if ty.k == "struct" else ty.k))

    def add(self, v, ty, d, dty, sign=1):
        if isinstance(v, Ptr):
            return Ptr(v.obj, v.path, iadd(v.off, self.toint(d), sign), v.mode, v.ety)
        if isinstance(d, Ptr) and sign == 1:
            return Ptr(d.obj, d.path, iadd(d.off, self.toint(v)), d.mode, d.ety)
        if not isinstance(v, T) or not isinstance(d, T):
            raise Unsupported("arithmetic on %r, %r" % (v, d))
        if v.sort == "r" or d.sort == "r":
            a, b = self.toreal(v), self.toreal(d)
            return radd(a, b) if sign == 1 else rsub(a, b)
        return iadd(self.toint(v), self.toint(d), sign)

    def e_BinaryOp(self, e, st):
        op = e.op
        if op == "&&":
            a, _ = self.eval(e.left, st)
            a = self.tobool(a)
            if a is FALSE or self.entails(st, bnot(a)):
                return FALSE, INT
            s2 = State(st.mem, st.pc + (a,)) if a is not TRUE else st
            b, _ = self.eval(e.right, s2)
            return band(a, self.tobool(b)), INT
        if op == "||":
            a, _ = self.eval(e.left, st)
            a = self.tobool(a)
            if a is TRUE or self.entails(st, a):
                return TRUE, INT
            s2 = State(st.mem, st.pc + (bnot(a),)) if a is not FALSE else st
            b, _ = self.eval(e.right, s2)
            return bor(a, self.tobool(b)), INT
        a, ta = self.eval(e.left, st)
        b, tb = self.eval(e.right, st)
        return self.binop(op, a, ta, b, tb)

    def binop(self, op, a, ta, b, tb):
        if op in ("+", "-"):
            sign = 1 if op == "+" else -1
            if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj and a.path == b.path:
                    return isub(a.off, b.off), INT
                raise Unsupported("pointer difference")
            if ta.k == "arr":
                ta = ptr(ta.a)
            if tb.k == "arr":
                tb = ptr(tb.a)
            r = self.add(a, ta, b, tb, sign)
            if isinstance(r, Ptr):
                return r, (ta if isinstance(a, Ptr) else tb)
            return r, (REAL if r.sort == "r" else INT)
        if op in ("==", "!="):
            r = self.equal(a, b)
            return (r if op == "==" else bnot(r)), INT
        if op in ("<", "<=", ">", ">="):
            if not isinstance(a, T) or not isinstance(b, T):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path:
                    a, b = a.off, b.off
                else:
                    raise Unsupported("comparison of %r and %r" % (a, b))
            if op in (">", ">="):
                a, b = b, a
                op = {">": "<", ">=": "<="}[op]
            if a.sort == "r" or b.sort == "r":
                return rcmp(op, self.toreal(a), self.toreal(b)), INT
            a, b = self.toint(a), self.toint(b)
            return (ilt(a, b) if op == "<" else ile(a, b)), INT
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported("binary %s on %r,%r" % (op, a, b))
        if op in ("*", "/") and (a.sort == "r" or b.sort == "r"):
            a, b = self.toreal(a), self.toreal(b)
            return (rmul(a, b) if op == "*" else rdiv(a, b)), REAL
        a, b = self.toint(a), self.toint(b)
        if op == "*":
            return imul(a, b), INT
        va, vb = ival(a), ival(b)
        if op in ("/", "%"):
            if va is not None and vb:
                q = abs(va) // abs(vb)
                if (va < 0) != (vb < 0):
                    q = -q
                return iconst(q if op == "/" else va - vb * q), INT
            if vb == 1:
                return (a if op == "/" else I0), INT
            return app("idiv" if op == "/" else "imod", [a, b], "i"), INT
        if va is not None and vb is not None:
            if op == "<<":
                return iconst(va << vb), INT
            if op == ">>":
                return iconst(va >> vb), INT
            if op == "&":
                return iconst(va & vb), INT
            if op == "|":
                return iconst(va | vb), INT
            if op == "^":
                return iconst(va ^ vb), INT
        if op == "<<" and vb is not None:
            return imul(a, iconst(1 << vb)), INT
        return app("bit" + op, [a, b], "i"), INT

    def equal(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == "r" or b.sort == "r":
                return rcmp("==", self.toreal(a), self.toreal(b))
            return ieq(self.toint(a), self.toint(b))
        if isinstance(a, CondPtr):
            return ite(a.c, self.equal(a.a, b), self.equal(a.b, b))
        if isinstance(b, CondPtr):
            return self.equal(b, a)
        na = isinstance(a, Null) or (isinstance(a, T) and a.sort == "i" and ival(a) == 0)
        nb = isinstance(b, Null) or (isinstance(b, T) and b.sort == "i" and ival(b) == 0)
        if na and nb:
            return TRUE
        if na or nb:
            x = b if na else a
            return bnot(self.tobool(x))
        if isinstance(a, Func) and isinstance(b, Func):
            if a == b:
                return TRUE
            if a.name in self.P.funcs and b.name in self.P.funcs:
                return FALSE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                return TRUE
            if a.obj != b.obj:
                return FALSE
        return mk("app", (fresh("peq"), ()), "b")

    def e_TernaryOp(self, e, st):
        c, _ = self.eval(e.cond, st)
        c = self.tobool(c)
        if self.entails(st, c):
            return self.eval(e.iftrue, st)
        if self.entails(st, bnot(c)):
            return self.eval(e.iffalse, st)
        s1 = st.copy()
        s1.pc = st.pc + (c,)
        s2 = st.copy()
        s2.pc = st.pc + (bnot(c),)
        a, ta = self.eval(e.iftrue, s1)
        b, tb = self.eval(e.iffalse, s2)
        m = self.merge(c, s1, s2, st.pc)
        st.mem = m.mem
        return self.iteval(c, a, b), (ta if not (ta.k == "int" and tb.k == "real") else tb)

    def iteval(self, c, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort != b.sort:
                if "r" in (a.sort, b.sort):
                    a, b = self.toreal(a), self.toreal(b)
                else:
                    a, b = self.toint(a), self.toint(b)
            return ite(c, a, b)
        if isinstance(a, SV) and isinstance(b, SV):
            return SV(a.ty, {k: self.iteval(c, a.leaves[k], b.leaves[k]) for k in a.leaves})
        if type(a) is type(b) and a == b:
            return a
        if isinstance(a, Null) and isinstance(b, Null):
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path and a.mode == b.mode:
            return Ptr(a.obj, a.path, ite(c, a.off, b.off), a.mode, a.ety)
        return CondPtr(c, a, b)

    def e_Assignment(self, e, st):
        if e.op == "=":
            v, ty = self.eval(e.rvalue, st)
            lt = self.store_to(e.lvalue, st, v, ty)
            if isinstance(v, T):
                return self.conv(v, lt), lt
            return v, lt
        op = e.op[:-1]
        r, rt = self.eval(e.rvalue, st)
        obj, path, lt = self.lval(e.lvalue, st)
        sym = [n for n, p in enumerate(path) if isinstance(p, tuple)]
        if sym:
            l = self.symfix(st, obj, path, sym[0], lt)
        else:
            l = self.rd(st, obj, path, lt)
        v, vt = self.binop(op, l, lt, r, rt)
        self.store_loc(obj, path, lt, st, v)
        return (self.conv(v, lt) if isinstance(v, T) else v), lt

    def store_to(self, le, st, v, vt=None):
        obj, path, ty = self.lval(le, st)
        if isinstance(v, Ptr) and ty.k == "ptr" and vt is not None and vt.k in ("ptr", "arr"):
            v, _ = self.castptr(v, vt, ty)
        self.store_loc(obj, path, ty, st, v)
        return ty

    def store_loc(self, obj, path, ty, st, v):
        sym = [n for n, p in enumerate(path) if isinstance(p, tuple)]
        if sym:
            n = sym[0]
            cands = self.fixcands(st, obj, path[:n])
            if not cands:
                raise Unsupported("store at symbolic index into fixed array %s" % obj)
            for c in cands:
                p2 = path[:n] + ("#%d" % c,) + path[n + 1:]
                old = self.rd(st, obj, p2, ty)
                cond = ieq(path[n][1], iconst(c))
                self.write(st, obj, p2, ty, self.iteval(cond, self.conv(v, ty), old))
            return
        if ty.k == "ptr" and isinstance(v, T) and v.sort == "i" and ival(v) == 0:
            v = NULL
        self.write(st, obj, path, ty, v)

    def e_ExprList(self, e, st):
        r = None
        for x in e.exprs:
            r = self.eval(x, st)
        return r

    # ---------------------------------------------------------------- calls
    def e_FuncCall(self, e, st):
        args = []
        aexprs = e.args.exprs if e.args else []
        if isinstance(e.name, A.ID) and not self._isvar(e.name.name):
            fname = e.name.name
        else:
            f, _ = self.eval(e.name, st)
            if isinstance(f, Func):
                fname = f.name
            elif isinstance(f, CondPtr):
                return self.call_cond(f, aexprs, st)
            else:
                raise Unsupported("call through %r" % (f,))
        if fname in IGNORED and fname not in self.contracts:
            return I0, INT
        if fname in NORETURN and fname not in self.contracts:
            raise _Dead()
        for a in aexprs:
            args.append(self.eval(a, st))
        return self.call(fname, args, st)

    def _isvar(self, n):
        try:
            self.var(n)
            return True
        except _NotVar:
            return False

    def call_cond(self, f, aexprs, st):
        raise Unsupported("call through conditional function pointer")

    def call(self, fname, args, st):
        self.stats["calls"][fname] = self.stats["calls"].get(fname, 0) + 1
        if fname in self.contracts:
            self.stats["contract_calls"][fname] = self.stats["contract_calls"].get(fname, 0) + 1
            r = self.contracts[fname](self, st, args)
            return r if isinstance(r, tuple) else (r, VOID if r is None else (REAL if getattr(r, "sort", "") == "r" else INT))
        if fname in MATH1:
            x = self.toreal(args[0][0])
            if fname == "sqrt" and x.op == "rc" and x.args[0] in (0, 1):
                return x, REAL
            return app(fname, [x]), REAL
        if fname == "fabs":
            x = self.toreal(args[0][0])
            return ite(rcmp("<", x, R0), rneg(x), x), REAL
        if fname == "abs":
            x = self.toint(args[0][0])
            return ite(ilt(x, I0), ineg(x), x), INT
        if fname in ("fmax", "fmin"):
            x, y = self.toreal(args[0][0]), self.toreal(args[1][0])
            c = rcmp("<", x, y)
            return (ite(c, y, x) if fname == "fmax" else ite(c, x, y)), REAL
        if fname in MATH2:
            return app(fname, [self.toreal(a[0]) for a in args]), REAL
        if fname in self.P.funcs and fname not in self.noinline:
            return self.inline(fname, args, st)
        if fname in ("calloc_1d_array", "calloc_2d_array", "calloc_3d_array", "malloc", "calloc"):
            o = fresh("heap")
            return Ptr(o, (), I0, "arr"), ptr(VOID)
        if fname.startswith("*") and self.unknown_fp is not None:
            return self.unknown_fp(fname, args, st)
        raise Unsupported("call of %s has neither body nor contract" % fname)

    unknown_fp = None

    def inline(self, fname, args, st):
        fd = self.P.funcs[fname]
        self.stats["inlined"][fname] = self.stats["inlined"].get(fname, 0) + 1
        if len(self.frames) > 40:
            raise Unsupported("recursion in " + fname)
        scope = {}
        decl = fd.decl.type
        params = decl.args.params if decl.args else []
        uid = fresh(fname)
        ps = [p for p in params if not (isinstance(p, (A.Typename,)) and self.P.ctype(p).k == "void") and not isinstance(p, A.EllipsisParam)]
        for i, p in enumerate(ps):
            ty = self.P.ctype(p.type)
            if ty.k == "arr":
                ty = ptr(ty.a)
            if ty.k == "func":
                ty = ptr(ty)
            o = "%s.%s" % (uid, p.name)
            scope[p.name] = (o, ty)
            if i < len(args):
                v = args[i][0]
                if isinstance(v, Ptr) and ty.k == "ptr" and args[i][1].k in ("ptr", "arr"):
                    v, _ = self.castptr(v, args[i][1], ty)
                self.write(st, o, (), ty, v)
        self.frames.append({"scopes": [scope], "fn": fname, "uid": uid})
        depth0 = len(st.pc)
        pc0 = st.pc
        try:
            out, exits = self.exec(fd.body, st)
        finally:
            self.frames.pop()
        rt = self.P.ctype(decl.type)
        outs = []
        for x in exits:
            if x.kind != "return":
                raise Unsupported("stray " + x.kind)
            outs.append((x.st, x.val))
        if out is not None:
            outs.append((out, None))
        if not outs:
            raise _Dead()
        st2, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            c = band(*s.pc[depth0:])
            val = self.iteval(c, v, val) if v is not None and val is not None else (v if val is None else val)
            st2 = self.merge(c, s, st2, pc0)
        # when some paths died (ath_error) the surviving path conditions still hold; keep pc short
        st.mem = st2.mem
        if isinstance(val, T):
            val = self.conv(val, rt)
        # drop callee locals
        pref = uid + "."
        for k in [k for k in st.mem if k[0].startswith(pref)]:
            del st.mem[k]
        return val, rt

    # ---------------------------------------------------------------- statements
    def exec(self, s, st):
        """-> (normal state or None, [Exit])"""
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.eval(s, st)
                return st, []
            return m(s, st)
        except _Dead:
            return None, []

    def s_Compound(self, s, st):
        self.frames[-1]["scopes"].append({})
        exits = []
        try:
            for x in (s.block_items or []):
                st, ex = self.exec(x, st)
                exits += ex
                if st is None:
                    break
        finally:
            self.frames[-1]["scopes"].pop()
        return st, exits

    def s_Decl(self, s, st):
        if isinstance(s.type, A.FuncDecl):
            return st, []
        if s.name is None:
            self.P._scan_types(s.type)
            return st, []
        ty = self.P.ctype(s.type)
        fr = self.frames[-1]
        if "static" in (s.storage or []):
            o = "%s::%s" % (fr["fn"], s.name)
            if s.init is not None and ("sinit", o) not in self.static_objs and (o, ()) not in self.values:
                self.static_objs[("sinit", o)] = True
                if (o, ()) not in st.mem and ty.k not in ("struct", "arr"):
                    if getattr(self, "static_init", False):
                        v, _ = self.eval(s.init, st)
                        self.write(st, o, (), ty, v)
        else:
            # a name unique to this activation, stable across re-executions of the same statement
            o = "%s.%s@%d" % (fr["uid"], s.name, _sid(s))
            for k in [k for k in st.mem if k[0] == o]:
                del st.mem[k]
        fr["scopes"][-1][s.name] = (o, ty)
        if s.init is not None and "static" not in (s.storage or []):
            if isinstance(s.init, A.InitList):
                self.initlist(st, o, (), ty, s.init)
            elif ty.k == "arr":
                pass
            else:
                v, vt = self.eval(s.init, st)
                if isinstance(v, T) and ty.k == "ptr" and v.sort == "i":
                    v = NULL
                if isinstance(v, Ptr) and ty.k == "ptr" and vt.k in ("ptr", "arr"):
                    v, _ = self.castptr(v, vt, ty)
                self.write(st, o, (), ty, v)
        return st, []

    def initlist(self, st, o, path, ty, il):
        if ty.k == "arr":
            for i, x in enumerate(il.exprs):
                p = path + ("#%d" % i,)
                if isinstance(x, A.InitList):
                    self.initlist(st, o, p, ty.a, x)
                else:
                    v, _ = self.eval(x, st)
                    self.write(st, o, p, ty.a, v)
            if ty.b:
                for i in range(len(il.exprs), ty.b):
                    for suf, lt in self.P.leaves(ty.a):
                        if lt.k in ("int", "real", "char"):
                            self.write(st, o, path + ("#%d" % i,) + suf, lt, R0 if lt.k == "real" else I0)
        elif ty.k == "struct":
            for (n, ft), x in zip(self.P.fields(ty.a), il.exprs):
                v, _ = self.eval(x, st)
                self.write(st, o, path + (n,), ft, v)
        else:
            v, _ = self.eval(il.exprs[0], st)
            self.write(st, o, path, ty, v)

    def s_DeclList(self, s, st):
        for d in s.decls:
            st, _ = self.s_Decl(d, st)
        return st, []

    def s_EmptyStatement(self, s, st):
        return st, []

    def s_Typedef(self, s, st):
        self.P.typedefs[s.name] = s.type
        return st, []

    def s_Pragma(self, s, st):
        return st, []

    def s_Label(self, s, st):
        return self.exec(s.stmt, st)

    def s_Goto(self, s, st):
        raise Unsupported("goto")

    def s_Return(self, s, st):
        v = None
        if s.expr is not None:
            v, _ = self.eval(s.expr, st)
        return None, [Exit("return", st, v)]

    def s_Break(self, s, st):
        return None, [Exit("break", st)]

    def s_Continue(self, s, st):
        return None, [Exit("continue", st)]

    def s_If(self, s, st):
        c, _ = self.eval(s.cond, st)
        c = self.tobool(c)
        if self.entails(st, c):
            return self.exec(s.iftrue, st) if s.iftrue else (st, [])
        if self.entails(st, bnot(c)):
            return self.exec(s.iffalse, st) if s.iffalse else (st, [])
        pc0 = st.pc
        s1 = State(dict(st.mem), pc0 + (c,))
        s2 = State(dict(st.mem), pc0 + (bnot(c),))
        o1, e1 = self.exec(s.iftrue, s1) if s.iftrue else (s1, [])
        o2, e2 = self.exec(s.iffalse, s2) if s.iffalse else (s2, [])
        exits = e1 + e2
        if o1 is not None and o2 is not None:
            # if an exit happened inside, the merged path condition must remember the surviving conditions
            if e1 or e2:
                p1 = band(*o1.pc[len(pc0):])
                p2 = band(*o2.pc[len(pc0):])
                m = self.merge(c, o1, o2, pc0)
                m.pc = pc0 + (bor(p1, p2),) if bor(p1, p2) is not TRUE else pc0
                return m, exits
            return self.merge(c, o1, o2, pc0), exits
        return (o1 if o1 is not None else o2), exits

    def s_Switch(self, s, st):
        v, _ = self.eval(s.cond, st)
        v = self.toint(v)
        items = s.stmt.block_items or []
        cases = []
        for it in items:
            if isinstance(it, (A.Case, A.Default)):
                cases.append([it, list(it.stmts or [])])
            elif cases:
                cases[-1][1].append(it)
        # nested consecutive cases: pycparser nests "case 1: case 2:" as stmts
        flat = []
        for it, body in cases:
            labels = [it]
            while body and isinstance(body[0], (A.Case, A.Default)):
                it2 = body[0]
                labels.append(it2)
                body = list(it2.stmts or []) + body[1:]
            flat.append((labels, body))
        outs = []
        neg = []
        exits = []
        for n, (labels, body) in enumerate(flat):
            if any(isinstance(l, A.Default) for l in labels):
                continue
            conds = [ieq(v, self.toint(self.eval(l.expr, st)[0])) for l in labels]
            c = bor(*conds)
            neg.append(c)
        default = None
        k = 0
        order = []
        for n, (labels, body) in enumerate(flat):
            if any(isinstance(l, A.Default) for l in labels):
                order.append((n, None))
            else:
                order.append((n, neg[k]))
                k += 1
        alts = [(n, c if c is not None else bnot(bor(*neg))) for n, c in order]
        if not any(c is None for _, c in order):
            alts.append((None, bnot(bor(*neg))))
        pc0 = st.pc
        finals = []
        for n, c in alts:
            if c is FALSE or self.entails(st, bnot(c)):
                continue
            sure = self.entails(st, c)
            s1 = State(dict(st.mem), pc0 if sure else pc0 + (c,))
            out = s1
            if n is not None:
                seq = [x for (_, b) in flat[n:] for x in b]
                for x in seq:
                    out, ex = self.exec(x, out)
                    for z in ex:
                        if z.kind == "break":
                            if z.st.pc != s1.pc and out is not None:
                                raise Unsupported("conditional break in switch")
                            out2 = z.st
                            finals.append((c, out2))
                        else:
                            exits.append(z)
                    if out is None:
                        break
            if out is not None:
                finals.append((c, out))
            if sure:
                break
        if not finals:
            return None, exits
        r = finals[-1][1]
        for c, o in reversed(finals[:-1]):
            r = self.merge(c, o, r, pc0)
        r.pc = pc0 if not exits else r.pc
        return r, exits

    # ---------------------------------------------------------------- merging
    def merge(self, c, s1, s2, pc):
        self.stats["merges"] += 1
        mem = {}
        for k in set(s1.mem) | set(s2.mem):
            a = s1.mem.get(k)
            b = s2.mem.get(k)
            if a is b:
                mem[k] = a
                continue
            if isinstance(a, Node) or isinstance(b, Node):
                if a is None or b is None:
                    # never written on the other side: initial contents
                    x = a if a is not None else b
                    base = x
                    while base.prev is not None:
                        base = base.prev
                    if isinstance(base, Base) and base.val is None:
                        if a is None:
                            a = base
                        else:
                            b = base
                        if a is b:
                            mem[k] = a
                            continue
                    else:
                        continue   # a local of one branch
                mem[k] = self.mergenode(c, a, b, s1, s2, pc)
                continue
            if a is None or b is None:
                # value only known on one side
                x = a if a is not None else b
                if isinstance(x, T):
                    other = self.initial_like(k, x)
                    a = a if a is not None else other
                    b = b if b is not None else other
                else:
                    mem[k] = x if False else self._merge_nonterm(c, a, b, k)
                    if mem[k] is None:
                        del mem[k]
                    continue
            if isinstance(a, dict) and isinstance(b, dict):
                mem[k] = {i: a[i] for i in a if i in b and a[i] == b[i]}
                continue
            mem[k] = self.iteval(c, a, b)
        return State(mem, pc)

    def _merge_nonterm(self, c, a, b, k):
        # pointer-valued location never touched on one side: its initial value
        x = a if a is not None else b
        if isinstance(x, Ptr) and k in self.values:
            return None
        init = None
        if isinstance(x, (Ptr, Func)):
            ty = ptr(VOID) if isinstance(x, Ptr) else ptr(CT("func"))
            init = self.initial(k, ty, ())
            if init == x:
                return x
        if init is None:
            return None
        return self.iteval(c, a if a is not None else init, b if b is not None else init)

    def _islocal(self, k):
        return "@" in k[0] or "!" in k[0]

    def initial_like(self, k, x):
        return self.initial(k, INT if x.sort == "i" else REAL, ())

    def suffix(self, node, stop):
        out = []
        while node is not stop:
            out.append(node)
            node = node.prev
            if node is None and stop is not None:
                return None
        return out[::-1]

    def common(self, a, b):
        seen = set()
        x = a
        while x is not None:
            seen.add(id(x))
            x = x.prev
        x = b
        while x is not None:
            if id(x) in seen:
                return x
            x = x.prev
        return None

    def mergenode(self, c, a, b, s1, s2, pc):
        base = self.common(a, b)
        if base is None:
            return Mux(c, a, b, None)
        sa = self.suffix(a, base)
        sb = self.suffix(b, base)
        if sa is None or sb is None or any(isinstance(n, Mux) for n in sa + sb):
            return Mux(c, a, b, base)
        cur = base
        st = State({}, pc)
        for side, suf, other in ((True, sa, b), (False, sb, a)):
            for n in suf:
                if isinstance(n, Store):
                    # value on the written side vs the other
                    cc = c if side else bnot(c)
                    old = self.read(cur, n.idx, self.ctx(st))
                    cur = Store(cur, n.idx, self.iteval(cc, n.val, old))
                elif isinstance(n, LoopStore):
                    cc = c if side else bnot(c)
                    save = self.scopevars
                    self.scopevars = tuple(n.scope) + tuple(n.vars)
                    F = self.ctx(State({}, pc), *n.dom)
                    old = self.read(cur, n.idx, F)
                    self.scopevars = save
                    val = self.iteval(cc, inst(n.d, n.d.formals), old)
                    d = Def(n.d.name, n.d.formals, val, n.d.sort, n.d.meta)
                    cur = LoopStore(cur, n.vars, n.dom, n.idx, d, n.scope)
                else:
                    return Mux(c, a, b, base)
        return cur

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        self.frames[-1]["scopes"].append({})
        try:
            if s.init is not None:
                if isinstance(s.init, A.DeclList):
                    self.s_DeclList(s.init, st)
                else:
                    self.eval(s.init, st)
            return self.loop(s, s.cond, s.stmt, s.next, st)
        finally:
            self.frames[-1]["scopes"].pop()

    def s_While(self, s, st):
        return self.loop(s, s.cond, s.stmt, None, st)

    def s_DoWhile(self, s, st):
        # body; while(cond) body
        out, ex = self.exec(s.stmt, st)
        exits = []
        pend = []
        for x in ex:
            if x.kind == "break":
                pend.append(x)
            elif x.kind == "continue":
                raise Unsupported("continue in do-while")
            else:
                exits.append(x)
        if out is None and not pend:
            return None, exits
        if out is not None:
            out, ex2 = self.loop(s, s.cond, s.stmt, None, out)
            exits += ex2
        if pend:
            pc0 = st.pc
            for x in pend:
                if out is None:
                    out = x.st
                else:
                    out = self.merge(band(*x.st.pc[len(pc0):]), x.st, out, pc0)
            out.pc = pc0
        return out, exits

    def loopcond(self, cond, st):
        if cond is None:
            return TRUE
        v, _ = self.eval(cond, st)
        return self.tobool(v)

    def loop(self, s, cond, body, nxt, st):
        # concrete unrolling
        exits = []
        n = 0
        brk = []
        pc0 = st.pc
        cur = st
        while True:
            probe = cur.copy()
            c = self.loopcond(cond, probe)
            if c is TRUE:
                if n == 0 and not self._concrete_next(s, cond, body, nxt):
                    break
                if n == 0 and self.nounroll is not None and self.nounroll(cond):
                    break
                cur = probe
                n += 1
                if n > self.maxunroll:
                    raise Unsupported("loop unrolled more than %d times" % self.maxunroll)
                cur, ex = self.exec(body, cur)
                conts = []
                for x in ex:
                    if x.kind == "break":
                        brk.append(x)
                    elif x.kind == "continue":
                        conts.append(x)
                    else:
                        exits.append(x)
                for x in conts:
                    if cur is None:
                        cur = x.st
                    else:
                        pcx = self._commonpc(x.st.pc, cur.pc)
                        cur = self.merge(band(*x.st.pc[len(pcx):]), x.st, cur, pcx)
                if cur is None:
                    break
                if nxt is not None:
                    self.eval(nxt, cur)
                continue
            if c is FALSE:
                cur = probe
                break
            break
        else:
            pass
        if cur is not None and c is not FALSE:
            if brk:
                raise Unsupported("loop partly concrete with break")
            r, ex = self.symloop(s, cond, body, nxt, cur)
            return r, exits + ex
        for x in brk:
            if cur is None:
                cur = x.st
                cur.pc = cur.pc
            else:
                pcx = self._commonpc(x.st.pc, cur.pc)
                cur = self.merge(band(*x.st.pc[len(pcx):]), x.st, cur, pcx)
        return cur, exits

    def _commonpc(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        return a[:n]

    def _concrete_next(self, s, cond, body, nxt):
        return cond is not None

    def changed(self, a, b):
        out = set()
        for k in set(a.mem) | set(b.mem):
            x = a.mem.get(k)
            y = b.mem.get(k)
            if x is y:
                continue
            if isinstance(x, (Ptr, Func, Null)) and isinstance(y, (Ptr, Func, Null)) and (x == y or (isinstance(x, Null) and isinstance(y, Null))):
                continue
            if x is None and isinstance(y, Base) and y.val is None:
                continue
            if x is None and isinstance(y, T) and not self._islocal(k):
                init = self.initial_like(k, y) if k not in self.values else self.values[k]
                if init is y:
                    continue
            if x is None and isinstance(y, (Ptr, Func)):
                try:
                    if self.initial(k, ptr(VOID) if isinstance(y, Ptr) else ptr(CT("func")), ()) == y:
                        continue
                except Exception:
                    pass
            out.add(k)
        return out

    def symloop(self, s, cond, body, nxt, st):
        """loop with symbolic trip count"""
        self.stats["loops"] += 1
        ck = (_sid(s), self.frames[-1]["fn"])
        mods = set(self.loopmods.get(ck, ()))
        mods = self._relabel(mods)
        pre = st
        fixed = None
        hint = self.loophint.get(ck)
        if hint is not None and mods:
            fixed = self._from_hint(hint, cond, pre, mods)
        for attempt in range(10):
            self.probing = getattr(self, "probing", 0) + (fixed is None)
            try:
                res = self._try(s, cond, body, nxt, pre, mods, fixed)
            finally:
                self.probing -= (fixed is None)
            if res[0] == "badhint":
                fixed = None
                if hint is None:
                    raise Unsupported("induction not reproducible")
                hint = None
                continue
            if res[0] == "mods":
                mods = res[1]
                continue
            if res[0] == "indvars":
                fixed = res[1]
                continue
            if res[0] == "done":
                self.loopmods[ck] = self._unlabel(mods)
                if fixed is not None:
                    self._sethint(ck, fixed)
                return res[1], res[2]
        raise Unsupported("loop analysis did not converge in %s" % self.frames[-1]["fn"])

    def _sethint(self, ck, fixed):
        steps = fixed[10]
        if all(ival(d) is not None for d in steps.values()):
            ks = list(steps)
            un = dict(zip(ks, [list(self._unlabel({k}))[0] for k in ks]))
            self.loophint[ck] = {un[k]: steps[k] for k in ks}
        else:
            self.loophint.pop(ck, None)

    def _from_hint(self, hint, cond, pre, mods):
        ks = {}
        for k, d in hint.items():
            kk = list(self._relabel({k}))[0]
            if kk not in mods or kk not in pre.mem:
                return None
            ks[kk] = d
        v = newvar("it")
        probe = pre.copy()
        scal = {}
        for k in mods:
            x = pre.mem.get(k)
            if "[]" in k[1]:
                continue
            sort = x.sort if isinstance(x, T) else "i"
            if isinstance(x, T) or isinstance(x, Ptr):
                d = Def("hd:" + _kname(k), self.scopevars + (v,), None, "i" if sort == "b" else sort)
                scal[k] = d
                h = inst(d, self.scopevars + (v,))
                probe.mem[k] = Ptr(x.obj, x.path, h, x.mode, x.ety) if isinstance(x, Ptr) else h
        return self._control(cond, pre, probe, ks, scal, v)

    def _unlabel(self, mods):
        uid = self.frames[-1]["uid"] + "."
        return {(("\0" + o[len(uid):]) if o.startswith(uid) else o, r) for o, r in mods}

    def _relabel(self, mods):
        uid = self.frames[-1]["uid"] + "."
        return {((uid + o[1:]) if o.startswith("\0") else o, r) for o, r in mods}

    def _try(self, s, cond, body, nxt, pre, mods, fixed):
        """one analysis attempt.
        fixed: None on the first attempt, else (mainkey, step, lo, hi, {key:(preval,step)})"""
        pc0 = pre.pc
        v = newvar("it") if fixed is None else fixed[0]
        hst = State(dict(pre.mem), pc0)
        heads = {}
        scal = {}
        save_scope = self.scopevars
        ind = fixed[5] if fixed else {}
        for k in sorted(mods, key=str):
            x = pre.mem.get(k)
            if k in ind:
                hst.mem[k] = ind[k](iatom(v))
                continue
            if "[]" in k[1]:
                if isinstance(x, (dict, PTab)):
                    hst.mem[k] = {"?": None}
                    continue
                if x is None:
                    sort = self.objtypes.get(k)
                    if sort is None:
                        continue
                    x = Base(_kname(k), sort)
                    pre.mem[k] = x
                h = Head(x, save_scope + (v,), _kname(k), self.nodesort(x))
                heads[k] = h
                hst.mem[k] = h
            elif isinstance(x, T):
                d = Def("hd:" + _kname(k), save_scope + (v,), None, x.sort)
                if x.sort == "b":
                    x = self.toint(x)
                    d.sort = "i"
                scal[k] = d
                hst.mem[k] = inst(d, save_scope + (v,))
            elif x is None:
                if k in self.objtypes:
                    d = Def("hd:" + _kname(k), save_scope + (v,), None, self.objtypes[k])
                    scal[k] = d
                    hst.mem[k] = inst(d, save_scope + (v,))
                else:
                    hst.mem.pop(k, None)   # a body-local
            elif isinstance(x, Ptr):
                # pointer modified in the loop and not a recognised induction pointer
                d = Def("hd:" + _kname(k), save_scope + (v,), None, "i")
                scal[k] = d
                hst.mem[k] = Ptr(x.obj, x.path, inst(d, save_scope + (v,)), x.mode, x.ety)
            else:
                hst.mem[k] = Opaque("loop")
        self.scopevars = save_scope + (v,)
        try:
            head0 = hst.copy()
            bst = hst.copy()
            c = self.loopcond(cond, bst)
            if fixed:
                dom = fixed[4]
                bst.pc = pc0 + tuple(dom)
            else:
                bst.pc = pc0 + ((c,) if c is not TRUE else ())
            entry_pc = bst.pc
            out, ex = self.exec(body, bst)
            rets = [x for x in ex if x.kind == "return"]
            brks = [x for x in ex if x.kind == "break"]
            conts = [x for x in ex if x.kind == "continue"]
            for x in conts:
                if out is None:
                    out = x.st
                else:
                    pcx = self._commonpc(x.st.pc, out.pc)
                    out = self.merge(band(*x.st.pc[len(pcx):]), x.st, out, pcx)
            if out is None and not brks and not rets:
                # body always dies: loop executes zero times on surviving paths
                p = pre.copy()
                p.pc = pc0 + (bnot(self.loopcond(cond, p)),)
                return ("done", p, [])
            if out is not None and nxt is not None:
                self.eval(nxt, out)
        finally:
            self.scopevars = save_scope
        ch = set()
        if out is not None:
            ch |= self.changed(head0, out)
        for x in brks + rets:
            ch |= self.changed(head0, x.st)
        ch = {k for k in ch if not (self._bodylocal(k, pre, out))}
        new = set()
        for k in ch - mods:
            new.add(k)
            if out is not None and isinstance(out.mem.get(k), Node):
                self.objtypes[k] = self.nodesort(out.mem[k])
            elif out is not None and isinstance(out.mem.get(k), T):
                self.objtypes[k] = out.mem[k].sort if out.mem[k].sort != "b" else "i"
        if new:
            # a dict of pointers, or a fresh location: remember its sort
            return ("mods", mods | new)
        if fixed is None:
            f = self._induction(s, cond, pre, hst, head0, out, mods, scal, v, brks, rets)
            if f is not None:
                return ("indvars", f)
            # unknown trip count: everything modified becomes unknown afterwards
            return self._havocloop(s, cond, pre, head0, mods, out, brks, rets)
        if brks or rets:
            return self._havocloop(s, cond, pre, head0, mods, out, brks, rets)
        return self._finish(s, pre, head0, out, mods, heads, scal, fixed)

    def _bodylocal(self, k, pre, out):
        """declared inside the body: not live before"""
        if "@" in k[0] and k not in pre.mem:
            return not any(kk[0] == k[0] for kk in pre.mem)
        if "!" in k[0].split(".")[0] and k not in pre.mem and not k[0].startswith(self.frames[-1]["uid"]):
            return not any(kk[0] == k[0] for kk in pre.mem)
        return False

    def nodesort(self, x):
        while x is not None:
            if isinstance(x, (Base, Head)):
                return x.sort
            if isinstance(x, LoopStore):
                return x.d.sort
            if isinstance(x, Mux):
                return self.nodesort(x.a)
            if isinstance(x, Store) and isinstance(x.val, T):
                return x.val.sort
            x = x.prev
        raise Unsupported("sort")

    def _induction(self, s, cond, pre, hst, head0, out, mods, scal, v, brks, rets):
        """find loop counters: scalars with out == head + const; choose the controlling one."""
        if out is None or brks or rets:
            return None
        steps = {}
        for k in mods:
            if "[]" in k[1] or k not in scal:
                continue
            h = head0.mem[k]
            o = out.mem.get(k)
            if isinstance(h, Ptr):
                if not isinstance(o, Ptr) or o.obj != h.obj or o.path != h.path or o.mode != h.mode:
                    continue
                h, o = h.off, o.off
            elif not (isinstance(o, T) and o.sort == "i"):
                continue
            dlt = isub(o, h)
            bad = False
            for a in iatoms_deep(dlt):
                if a.op == "inst" and a.args[0] in scal.values():
                    bad = True
                if a is v:
                    bad = True
            if bad:
                continue
            steps[k] = dlt
        return self._control(cond, pre, head0, steps, scal, v)

    def _control(self, cond, pre, head0, steps, scal, v):
        # controlling comparison
        probe = head0.copy()
        self.scopevars = self.scopevars + (v,)
        c = self.loopcond(cond, probe)
        self.scopevars = self.scopevars[:-1]
        if c.op == "and":
            return None
        ctl = None
        for k, dlt in steps.items():
            stp = ival(dlt)
            if stp is None or stp == 0:
                continue
            h = head0.mem[k]
            hv = h.off if isinstance(h, Ptr) else h
            (atom,) = list(iatoms(hv))
            if c.op == "ile0":
                p = c.args[0]
                co = dict(iparts(p)[1]).get((atom,), 0)
                rest = isub(p, imul(iconst(co), hv))
                if co == 0 or atom in iatoms(rest):
                    continue
                if any(a.op == "inst" and a.args[0] in scal.values() for a in iatoms_deep(rest)):
                    continue
                # co*x + rest <= 0
                if co * stp > 0 and abs(co) == 1:
                    ctl = (k, stp, co, rest, "le")
                    break
            elif c.op == "not" and c.args[0].op == "ieq0":
                p = c.args[0].args[0]
                co = dict(iparts(p)[1]).get((atom,), 0)
                rest = isub(p, imul(iconst(co), hv))
                if abs(co) != 1 or abs(stp) != 1 or any(a.op == "inst" and a.args[0] in scal.values() for a in iatoms_deep(rest)):
                    continue
                # x != b ; x stepping by stp: bound b - stp, provided start is on the right side
                b = imul(iconst(-co), rest)
                x0 = pre.mem[k]
                x0 = x0.off if isinstance(x0, Ptr) else x0
                d = isub(b, x0) if stp > 0 else isub(x0, b)
                if self.entails(pre, ile(I0, d)):
                    ctl = (k, stp, 1 if stp > 0 else -1, isub(I1, b) if stp > 0 else iadd(b, I1), "le")
                    break
        if ctl is None:
            return None
        k, stp, co, rest, _ = ctl
        x0 = pre.mem[k]
        x0 = x0.off if isinstance(x0, Ptr) else x0
        if abs(stp) == 1:
            # loop variable = the counter itself (counts up) or its negation
            if stp == 1:
                lo, hi = x0, ineg(rest)          # x <= -rest
                var_of = lambda vv: vv
                t_of = lambda vv: isub(vv, lo)
            else:
                # co=-1: -x+rest<=0 -> x>=rest ; var = x, descending
                lo, hi = rest, x0
                var_of = lambda vv: vv
                t_of = lambda vv: isub(hi, vv)
            dom = [ile(lo, iatom(v)), ile(iatom(v), hi)]
            desc = stp == -1
        else:
            # general step: var = iteration number t = 0..N-1, x = x0+stp*t, N from the bound
            if stp > 0:
                # x0+stp*t <= ub -> t <= (ub-x0)/stp
                num = isub(ineg(rest), x0)
            else:
                num = isub(x0, rest)
            a = abs(stp)
            vn = ival(num)
            if vn is not None:
                hi = iconst(vn // a if vn >= 0 else -1)
            else:
                hi = None
            lo = I0
            xx = lambda vv: iadd(x0, imul(iconst(stp), vv))
            var_of = xx
            t_of = lambda vv: vv
            if hi is None:
                # keep it exact: hi = floor(num/a) as an opaque integer q with a*q <= num < a*q+a
                q = app("fdiv", [num, iconst(a)], "i")
                self.facts = self.facts.extend(ile(imul(iconst(a), q), num), ilt(num, iadd(imul(iconst(a), q), iconst(a))))
                hi = q
            dom = [ile(lo, iatom(v)), ile(iatom(v), hi)]
            desc = False
        ind = {}

        def mkind(key):
            pv = pre.mem[key]
            dl = steps[key]
            if key == k:
                if isinstance(pv, Ptr):
                    return lambda vv: Ptr(pv.obj, pv.path, var_of(vv), pv.mode, pv.ety)
                return lambda vv: var_of(vv)
            if isinstance(pv, Ptr):
                return lambda vv: Ptr(pv.obj, pv.path, iadd(pv.off, imul(dl, t_of(vv))), pv.mode, pv.ety)
            return lambda vv: iadd(pv, imul(dl, t_of(vv)))
        for key in steps:
            ind[key] = mkind(key)
        return (v, lo, hi, desc, dom, ind, var_of, t_of, stp, k, steps)

    def _havocloop(self, s, cond, pre, head0, mods, out, brks, rets):
        if not self.nondet_loops:
            raise Unsupported("loop with unknown trip count")
        if rets:
            raise Unsupported("return inside a loop with symbolic trip count")
        post = pre.copy()
        for k in mods:
            x = pre.mem.get(k)
            self._havoc_key(post, k, x)
        self.stats["havoc_post"] += 1
        return ("done", post, [])

    def _havoc_key(self, post, k, x):
        if "[]" in k[1]:
            if isinstance(x, (dict, PTab)) or x is None and k not in self.objtypes:
                post.mem[k] = {"?": None}
                return
            post.mem[k] = Base(fresh("hv:" + _kname(k)), self.nodesort(x) if x is not None else self.objtypes[k], self.scopevars)
        elif isinstance(x, T):
            d = Def(fresh("hv:" + _kname(k)), self.scopevars, None, x.sort if x.sort != "b" else "i")
            post.mem[k] = inst(d, self.scopevars)
        elif isinstance(x, Ptr):
            d = Def(fresh("hv:" + _kname(k)), self.scopevars, None, "i")
            post.mem[k] = Ptr(x.obj, x.path, inst(d, self.scopevars), x.mode, x.ety)
        else:
            post.mem.pop(k, None)

    def _finish(self, s, pre, head0, out, mods, heads, scal, fixed):
        v, lo, hi, desc, dom, ind, var_of, t_of, stp, mainkey, _steps = fixed
        pc0 = pre.pc
        F0 = self.ctx(pre)
        post = pre.copy()
        v2 = newvar("it")
        nv = iadd(iatom(v), I1) if not desc else isub(iatom(v), I1)
        for k in ind:
            want = ind[k](nv)
            got = out.mem.get(k)
            if not (got is want or (isinstance(got, Ptr) and got == want)):
                return ("badhint",)
        # 1. collect array writes of one iteration
        writes = {}
        for k, h in heads.items():
            o = out.mem.get(k)
            if o is h or o is None:
                writes[k] = []
                continue
            w = self._suffix_writes(o, h, v, dom)
            writes[k] = w
        # 2. disjointness of different iterations; head reads
        okpost = {}
        for k, h in heads.items():
            w = writes[k]
            okpost[k] = w is not None and self._disjoint(w, v, v2, dom, pre)
        for k, h in heads.items():
            w = writes[k]
            for (d, idx, F, scope) in h.sites:
                if d.body is not None:
                    continue
                if w is not None and self._nowrite(w, v, v2, dom, idx, F, desc):
                    save = self.scopevars
                    self.scopevars = scope
                    d.body = self.read(h.pre, idx, F)
                    self.scopevars = save
                    self.stats["head_resolved"] += 1
                else:
                    self.stats["head_opaque"] += 1
        nonempty = ile(lo, hi)
        empt = self.entails(pre, nonempty)
        noiter = self.entails(pre, bnot(nonempty))
        last = hi if not desc else lo
        # 3. post state arrays
        for k, h in heads.items():
            w = writes[k]
            if w == []:
                continue
            if noiter:
                continue
            if okpost[k]:
                self.stats["disjoint"] += 1
                cur = h.pre
                for (vars_, dom_, idx_, val_, name) in w:
                    formals = tuple(self.scopevars) + (v,) + tuple(vars_)
                    # keep formals minimal and ordered: scope, v, inner
                    d = Def(name, formals, val_, val_.sort, _kname(k))
                    cur = LoopStore(cur, (v,) + tuple(vars_), tuple(dom) + tuple(dom_), idx_, d, self.scopevars)
                post.mem[k] = cur
            else:
                # same location written by several iterations: value of the last one if it does not
                # depend on the iteration order ... otherwise unknown
                done = False
                if w is not None and empt:
                    indep = all(v not in i.fv for ww in w for i in ww[2]) and all(v not in c.fv for ww in w for c in ww[1])
                    if indep:
                        cur = h.pre
                        for (vars_, dom_, idx_, val_, name) in w:
                            val2 = subst(val_, {v: last})
                            if vars_:
                                d = Def(name, tuple(self.scopevars) + tuple(vars_), val2, val2.sort, _kname(k))
                                cur = LoopStore(cur, tuple(vars_), tuple(dom_), idx_, d, self.scopevars)
                            else:
                                cur = Store(cur, idx_, val2)
                        # heads inside val2 refer to iteration `last`: still the same unknowns
                        post.mem[k] = cur
                        done = True
                if not done:
                    self.stats["havoc_post"] += 1
                    self._havoc_key(post, k, h.pre)
        # 4. scalars
        for k in mods:
            if k in heads:
                continue
            x = pre.mem.get(k)
            if k in ind:
                if k == mainkey:
                    # value after the loop
                    if abs(stp) == 1:
                        fin = iadd(hi, I1) if not desc else isub(lo, I1)
                        xv = pre.mem[k]
                        x0 = xv.off if isinstance(xv, Ptr) else xv
                        fin = fin if empt else (x0 if noiter else ite(nonempty, fin, x0))
                    else:
                        x0 = x.off if isinstance(x, Ptr) else x
                        fin = iadd(x0, imul(iconst(stp), ite(nonempty, iadd(hi, I1), I0) if not empt else iadd(hi, I1)))
                    post.mem[k] = Ptr(x.obj, x.path, fin, x.mode, x.ety) if isinstance(x, Ptr) else fin
                else:
                    # number of iterations
                    trip = iadd(isub(hi, lo), I1)
                    trip = trip if empt else (I0 if noiter else ite(nonempty, trip, I0))
                    pv = ind[k]
                    if isinstance(x, Ptr):
                        base = pv(iatom(lo) if not desc else iatom(hi))
                        stepv = isub(pv(iadd(lo, I1)).off, pv(lo).off) if not desc else isub(pv(lo).off, pv(iadd(lo, I1)).off)
                        post.mem[k] = Ptr(x.obj, x.path, iadd(x.off, imul(stepv, trip)), x.mode, x.ety)
                    else:
                        stepv = isub(pv(iadd(lo, I1)), pv(lo)) if not desc else isub(pv(lo), pv(iadd(lo, I1)))
                        post.mem[k] = iadd(x, imul(stepv, trip))
                continue
            o = out.mem.get(k)
            if noiter:
                continue
            if isinstance(x, T) and isinstance(o, T) and k in scal:
                h = head0.mem[k]
                if o.sort != x.sort:
                    o = self.conv(o, INT if x.sort == "i" else REAL)
                post.mem[k] = self._scalar_post(k, x, h, o, v, lo, hi, last, nonempty, empt, scal, dom)
            elif isinstance(x, Ptr) or x is None or not isinstance(x, T):
                if "[]" in k[1] and isinstance(o, dict):
                    new = [(i_, p_) for i_, p_ in o.items() if i_ != "?"]
                    if not new:
                        continue
                    if len(new) == 1 and isinstance(new[0][1], Ptr) and (x is None or isinstance(x, (dict, PTab))):
                        b, old = (x.base, x.entries) if isinstance(x, PTab) else (x, [])
                        post.mem[k] = PTab(b, old + [((v,), tuple(dom), new[0][0], new[0][1])])
                    else:
                        post.mem[k] = {"?": None}
                    continue
                if x is None and not isinstance(o, T):
                    post.mem.pop(k, None)
                    continue
                if x is None and isinstance(o, T):
                    # uninitialised before the loop
                    if not self._refs(o, scal.values()):
                        val = subst(o, {v: last})
                        if empt:
                            post.mem[k] = val
                        else:
                            post.mem[k] = ite(nonempty, val, self.initial_like(k, val))
                    else:
                        post.mem.pop(k, None)
                    continue
                if isinstance(x, (Ptr, Func, Null)) and isinstance(o, (Ptr, Func, Null)) and v not in _ptrfv(o) and empt:
                    post.mem[k] = o
                else:
                    self._havoc_key(post, k, x)
        post.pc = pc0
        if self._cond_effects(s.cond):
            self.loopcond(s.cond, post)
        return ("done", post, [])

    def _cond_effects(self, c):
        if c is None:
            return False
        found = []

        class V(A.NodeVisitor):
            def visit_UnaryOp(self, n):
                if n.op in ("++", "--", "p++", "p--"):
                    found.append(n)
                self.generic_visit(n)

            def visit_Assignment(self, n):
                found.append(n)
        V().visit(c)
        return bool(found)

    def _refs(self, t, defs):
        ds = set(defs)
        for x in subterms(t):
            if x.op == "inst" and x.args[0] in ds:
                return True
        return False

    def _scalar_post(self, k, x, h, o, v, lo, hi, last, nonempty, empt, scal, dom):
        own = scal[k]
        if not self._refs(o, [own]):
            if not self._refs(o, scal.values()):
                val = subst(o, {v: last})
                return val if empt else ite(nonempty, val, x)
        # accumulator patterns
        hatom = h if h.op == "inst" else (list(iatoms(h))[0] if h.sort == "i" else h)
        sc = self.scopevars
        if o.sort == "r":
            e = split_sum(o, hatom)
            if e is not None and not self._refs(e, scal.values()):
                self.stats["folds"] += 1
                d = Def(fresh("sum:" + _kname(k)), (v,) + tuple(sc), e, "r")
                return fold("sum", d, lo, hi, sc, x)
        r = split_minmax(o, hatom)
        if r is not None:
            kind, e = r
            if not self._refs(e, scal.values()):
                self.stats["folds"] += 1
                d = Def(fresh(kind + ":" + _kname(k)), (v,) + tuple(sc), e, o.sort)
                return fold(kind, d, lo, hi, sc, x)
        self.stats["havoc_post"] += 1
        d = Def(fresh("hv:" + _kname(k)), sc, None, x.sort)
        return inst(d, sc)

    def _suffix_writes(self, o, h, v, dom):
        """writes of one iteration, oldest first: (innervars, innerdom, idx, val, name) or None"""
        nodes = []
        x = o
        while x is not h:
            if x is None:
                return None
            nodes.append(x)
            if isinstance(x, (Mux, Base, Head)):
                return None
            x = x.prev
        out = []
        for n in reversed(nodes):
            if isinstance(n, Store):
                if not isinstance(n.val, T):
                    return None
                # superseded by a later store at the same index?
                out.append(((), (), n.idx, n.val, "st"))
            else:
                out.append((n.vars, n.dom, n.idx, inst(n.d, n.d.formals), n.d.name))
        # compress point stores at identical indices
        comp = []
        for w in out:
            if comp and not w[0]:
                comp = [z for z in comp if z[0] or z[2] != w[2]]
            comp.append(w)
        return comp

    def _disjoint(self, w, v, v2, dom, pre):
        """different iterations never write the same location"""
        F = self.ctx(pre, *dom)
        dom2 = [subst(c, {v: iatom(v2)}) for c in dom]
        for a in w:
            for b in w:
                # a at iteration v, b at iteration v2 > v
                ren = {z: newvar("z") for z in b[0]}
                m = {v: iatom(v2)}
                m.update({z: iatom(n) for z, n in ren.items()})
                bidx = [subst(i, m) for i in b[2]]
                bdom = [subst(c, m) for c in b[1]]
                G = F.extend(*dom2, *a[1], *bdom)
                for order in (ilt(iatom(v), iatom(v2)), ilt(iatom(v2), iatom(v))):
                    if a is b and order is not None and order == ilt(iatom(v2), iatom(v)):
                        continue
                    G2 = G.extend(order)
                    if not self._differ(G2, [ieq(x, y) for x, y in zip(a[2], bidx)]):
                        return False
        return True

    def _nowrite(self, w, v, v2, dom, idx, F, desc):
        """no earlier iteration v2 writes idx (idx read in iteration v)"""
        dom2 = [subst(c, {v: iatom(v2)}) for c in dom]
        order = ilt(iatom(v2), iatom(v)) if not desc else ilt(iatom(v), iatom(v2))
        for b in w:
            ren = {z: newvar("z") for z in b[0]}
            m = {v: iatom(v2)}
            m.update({z: iatom(n) for z, n in ren.items()})
            bidx = [subst(i, m) for i in b[2]]
            bdom = [subst(c, m) for c in b[1]]
            G = F.extend(*dom, *dom2, *bdom, order)
            if not self._differ(G, [ieq(x, y) for x, y in zip(idx, bidx)]):
                return False
        return True


class PTab:
    """table of pointers filled by loops: entries (vars, dom, idx, ptr), newest last; base: dict | None"""

    def __init__(self, base, entries):
        self.base = base
        self.entries = entries


def _ptrsub(p, m):
    if not m:
        return p
    return Ptr(p.obj, tuple(subst(x, m) if isinstance(x, T) else x for x in p.path), subst(p.off, m), p.mode, p.ety)


class CondPtr:
    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "(%s?%r:%r)" % (self.c, self.a, self.b)


class _NotLvalue(Exception):
    pass


class _NotVar(Exception):
    pass


class _Dead(Exception):
    pass


_sids = {}


def _sid(s):
    c = getattr(s, "coord", None)
    k = id(s)
    r = _sids.get(k)
    if r is None:
        r = len(_sids) + 1
        _sids[k] = r
        _keep.append(s)
    return r


_keep = []


def _kname(k):
    return k[0] + "".join("[]" if r == "[]" else ("[" + r[1:] + "]" if r[0] == "#" else "." + r) for r in k[1])


def _ptrfv(p):
    if isinstance(p, Ptr):
        s = set(p.off.fv)
        for x in p.path:
            if isinstance(x, T):
                s |= x.fv
        return s
    return set()


def iatoms_deep(t):
    return {x for x in subterms(t) if x.sort == "i" and x.op != "ip"}


def solve_idx(vars_, idxf, idx, dom):
    """solve idxf(vars)=idx; returns (map var->term, conditions) or (None,_)"""
    m = {}
    conds = []
    pend = [(a, b) for a, b in zip(idxf, idx)]
    vset = set(vars_)
    progress = True
    while pend and progress:
        progress = False
        rest = []
        for a, b in pend:
            a2 = subst(a, m) if m else a
            un = [x for x in iatoms(a2) if x in vset and x not in m]
            if not un:
                c = ieq(a2, b)
                conds.append(c)
                progress = True
                continue
            if len(un) == 1:
                x = un[0]
                co = dict(iparts(a2)[1]).get((x,), 0)
                r = isub(a2, imul(iconst(co), iatom(x)))
                if abs(co) == 1 and x not in iatoms(r):
                    m[x] = imul(iconst(co), isub(b, r))
                    progress = True
                    continue
            rest.append((a, b))
        pend = rest
    if pend or any(x not in m for x in vars_):
        return None, None
    # m values may mention the loop variables of other contexts only
    conds = [subst(c, m) for c in conds]
    for c in dom:
        conds.append(subst(c, m))
    return m, conds


def split_sum(o, h):
    """o == h + e, e free of h -> e"""
    if o is h:
        return R0
    if o.op == "+":
        a, b = o.args
        e = split_sum(a, h)
        if e is not None and h not in subterms(b):
            return radd(e, b)
        e = split_sum(b, h)
        if e is not None and h not in subterms(a):
            return radd(e, a)
        return None
    if o.op == "ite":
        c, a, b = o.args
        if h in subterms(c):
            return None
        ea = split_sum(a, h)
        eb = split_sum(b, h)
        if ea is not None and eb is not None:
            return ite(c, ea, eb)
    if o.op == "fold" and o.args[0] == "sum":
        kind, d, lo, hi, act, init = o.args
        e = split_sum(init, h)
        if e is not None:
            return fold("sum", d, lo, hi, act, e)
    return None


def split_minmax(o, h):
    """o == max(h,e) or min(h,e) -> (kind,e); several nested allowed"""
    if o.sort == "i":
        at = iatoms(o)
        if len(at) != 1 or iatom(list(at)[0]) is not o:
            return None
        o = list(at)[0]
        hh = iatom(h)
    else:
        hh = h
    if o.op == "fold" and o.args[0] in ("max", "min"):
        kind, d, lo, hi, act, init = o.args
        if init is hh:
            return (kind, fold(kind, d, lo, hi, act, mk("app", ("neutral_" + kind, ()), o.sort)))
        r = split_minmax(init, h)
        if r and r[0] == kind:
            return (kind, mk("app", ("join_" + kind, (r[1], fold(kind, d, lo, hi, act, mk("app", ("neutral_" + kind, ()), o.sort)))), o.sort))
        return None
    if o.op != "ite":
        return None
    c, a, b = o.args
    # forms: (h < e) ? e : h ; (e < h) ? h : e ; with <=
    if c.op in ("rlt", "rle"):
        x, y = c.args
    elif c.op == "ile0":
        # x - y (+1) <= 0
        p = c.args[0]
        for (u, w) in ((a, b), (b, a)):
            dlt = isub(u, w)
            k = isub(p, dlt)
            if ival(k) in (0, 1):
                # u-w (+1) <= 0 : u <= w
                x, y = u, w
                break
        else:
            return None
    else:
        # guarded: cond ? minmax : h
        return _guarded(o, hh, h)
    hs = lambda t: hh in subterms(t) or h in subterms(t)
    for (p, q) in ((x, y),):
        if p is a and q is b:      # x<y ? x : y -> min
            kind = "min"
        elif p is b and q is a:    # x<y ? y : x -> max
            kind = "max"
        else:
            return _guarded(o, hh, h)
        if a is hh or b is hh:
            e = b if a is hh else a
            if not hs(e):
                return (kind, e)
        # nested: max(max(h,e1),e2)
        for (inner, e) in ((a, b), (b, a)):
            if hs(inner) and not hs(e):
                r = split_minmax(inner, h)
                if r and r[0] == kind:
                    return (kind, mk("app", ("join_" + kind, (r[1], e)), o.sort if o.sort == "r" else "i"))
    return _guarded(o, hh, h)


def _guarded(o, hh, h):
    c, a, b = o.args
    if hh in subterms(c) or h in subterms(c):
        return None
    if b is hh:
        r = split_minmax(a, h)
        if r:
            return (r[0], ite(c, r[1], mk("app", ("neutral_" + r[0], ()), o.sort)))
    if a is hh:
        r = split_minmax(b, h)
        if r:
            return (r[0], ite(c, mk("app", ("neutral_" + r[0], ()), o.sort), r[1]))
    ra = split_minmax(a, h)
    rb = split_minmax(b, h)
    if ra and rb and ra[0] == rb[0]:
        return (ra[0], ite(c, ra[1], rb[1]))
    return None


def _dec(s):
    from fractions import Fraction
    return Fraction(s.rstrip("fFlL"))


def _chr(s):
    b = s[1:-1]
    esc = {"n": 10, "t": 9, "0": 0, "r": 13, "\\": 92, "'": 39, '"': 34}
    if b.startswith("\\"):
        return esc.get(b[1], 0)
    return ord(b)
