"""Path-partitioned abstract interpreter over the Python AST.

Flow sensitive; context sensitive by inlining; branches on options, types and None are partitioned, loops are brought to
a fixpoint by joining (two rounds, then widening to opaque values).  No code of the repository is ever executed and no
solver is used: values are value numbers over input leaves, plus an allocation/alias domain and a unit domain."""
import ast
import os
from . import expr as ex
from .expr import mk, const, leaf, phi, opaque, mmul, mdiv, mpow, norm_atom, ANY
from .values import *
from .prog import FuncInfo, ClassInfo, PropInfo, Module, BUILTINS, AnalysisBroken, resolve_rel, walk_local
from . import models

NUMCATS = frozenset(["int", "float", "complex"])
BASECATS = frozenset(["int", "float", "complex", "bool", "str", "none", "ndarray", "masked", "list", "tuple", "dict",
                      "unum", "func", "other"])

EXT_CATS = {
    "builtins.int": {"int", "bool"}, "builtins.float": {"float"}, "builtins.complex": {"complex"},
    "builtins.bool": {"bool"}, "builtins.str": {"str"}, "builtins.list": {"list"}, "builtins.tuple": {"tuple"},
    "builtins.dict": {"dict"}, "numpy.ndarray": {"ndarray", "masked"}, "numpy.ma.MaskedArray": {"masked"},
    "numpy.ma.core.MaskedArray": {"masked"},
    "unum.Unum": {"unum"}, "numpy.bool": {"bool"}, "numpy.bool_": {"bool"}, "numpy.str": {"str"},
    "numpy.float": {"float"}, "numpy.float16": {"float"}, "numpy.float32": {"float"}, "numpy.float64": {"float"},
    "numpy.int": {"int", "bool"}, "numpy.int8": {"int"}, "numpy.int16": {"int"}, "numpy.int32": {"int"},
    "numpy.int64": {"int"}, "numpy.uint8": {"int"}, "numpy.complex": {"complex"}, "numpy.integer": {"int"},
    "numpy.floating": {"float"}, "numbers.Number": {"int", "float", "complex"}, "numbers.Real": {"int", "float"},
    "numpy.number": {"int", "float", "complex"},
}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CMPDUNDER = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}


class Budget(Exception):
    pass


class Ctx(object):
    __slots__ = ("fi", "fid", "returns", "loops", "yields", "F")

    def __init__(self, fi, fid, F=None):
        self.fi, self.fid, self.F = fi, fid, F
        self.returns = []
        self.loops = []
        self.yields = []


class Exit(object):
    """one way out of an entry function"""
    __slots__ = ("kind", "st", "val", "exc")

    def __init__(self, kind, st, val=None, exc=None):
        self.kind, self.st, self.val, self.exc = kind, st, val, exc


class Engine(object):
    def __init__(self, prog, schema, max_steps=1500000, max_states=24, max_depth=14):
        self.prog, self.schema = prog, schema
        self.max_steps, self.max_states, self.max_depth = max_steps, max_states, max_depth
        self.empty_ok = False       # the receiver may be an empty series
        self.ALL = BASECATS | frozenset(c.qual for c in prog.classes.values())
        self.oidc = 0
        self.fidc = 0
        self.keyed = {}
        self.steps = 0
        self.rsinks = [[]]
        self.mod_cache = {}
        self.findings = {}
        self.param_units = {}   # parameter key -> key of the parameter giving its unit (documented interface)
        self.novel = None
        self.unit_cmp = {}      # expression of a comparison -> (op, monomial equal to 1 when the sides are equal)
        self.unit_dim = {}      # expression of a sum of units -> monomial that is then dimensionless
        self.guards = []     # definite, path-independent findings raised during interpretation
        self.merged = 0
        self.lossless = 0
        self._pair = {}
        self._jm, self._jl, self._jr = None, set(), set()
        self.soft = 60000
        self.squeezed = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        self.cur_ctx = []
        self.widen_log = 0

    # ------------------------------------------------------------------ allocation
    def new_oid(self):
        self.oidc += 1
        return self.oidc

    def alloc(self, st, obj, key=None):
        o = None
        if key is not None:
            # the same input part gets the same identity on every path
            o = self.keyed.get(key)
            if o is None:
                o = self.keyed[key] = self.new_oid()
            elif o in st.heap:
                o = None
        if o is None:
            o = self.new_oid()
        st.heap[o] = obj
        return R((o,))

    def new_arr(self, st, expr, tag=None, **kw):
        return self.alloc(st, Arr(expr, tag, **kw))

    def new_list(self, st, items=None, elem=None, kind="list", **kw):
        return self.alloc(st, Lst(tuple(items) if items is not None else None, elem, kind=kind, **kw))

    NOTE_EXC = {"unbound-local": "UnboundLocalError", "undefined-name": "NameError",
                "missing-attribute": "AttributeError", "bad-import": "ImportError", "readonly-property": "AttributeError"}

    def note(self, kind, node, msg, st=None, definite=True):
        if st is not None and ("exception in try" in st.trail or "one of several objects" in st.trail):
            return
        exc = self.NOTE_EXC.get(kind, "TypeError")
        if any(self.handler_matches(h, exc) for hs in self.guards for h in hs):
            return
        ctx = self.cur_ctx[-1] if self.cur_ctx else None
        fi = ctx.fi if ctx else None
        key = (kind, fi.qual if fi else "?", msg)
        if key not in self.findings:
            self.findings[key] = {"kind": kind, "func": fi.qual if fi else "?",
                                  "file": fi.module.rel if fi else "?", "line": getattr(node, "lineno", 0), "msg": msg,
                                  "numf": st.numf if st is not None else 0,
                                  "trail": st.trail if st is not None else (),
                                  "stack": st.stack if st is not None else ()}
        elif st is not None and st.numf < self.findings[key]["numf"]:
            self.findings[key]["numf"] = st.numf
            self.findings[key]["trail"] = st.trail

    def event(self, st, kind, node, **info):
        ctx = self.cur_ctx[-1] if self.cur_ctx else None
        fi = ctx.fi if ctx else None
        rec = (kind, fi.qual if fi else "?", fi.module.rel if fi else "?", getattr(node, "lineno", 0),
               tuple(sorted(info.items())), st.stack)
        if rec not in st.events and len(st.events) < 60:
            st.events = st.events + (rec,)

    def write(self, st, owner, node, what):
        ctx = self.cur_ctx[-1] if self.cur_ctx else None
        fi = ctx.fi if ctx else None
        rec = (owner, fi.qual if fi else "?", fi.module.rel if fi else "?", getattr(node, "lineno", 0), what, st.stack)
        if len(st.writes) < 200 and rec not in st.writes:
            st.writes = st.writes + (rec,)

    def tick(self):
        self.steps += 1
        if self.steps >= self.soft:
            self.soft = self.steps * 3
            self.max_states = max(3, self.max_states // 3)
            self.squeezed += 1
        if self.steps > self.max_steps:
            raise Budget()

    # ------------------------------------------------------------------ symbolic inputs
    def types_of(self, st, key):
        return st.types.get(key, self.ALL)

    def conc(self, st, v):
        """Concretise a symbolic value when its type is known."""
        n = 0
        while isinstance(v, S) and n < 5:
            n += 1
            b = st.binds.get(v.key)
            if b is not None:
                v = b
                continue
            t = st.types.get(v.key)
            if t is None:
                return v
            nv = None
            if t and t <= NUMCATS:
                nv = N(leaf(v.key), self.param_tag(v.key), "int" if t == frozenset(["int"]) else "num")
            elif t == frozenset(["bool"]):
                nv = None
            elif t == frozenset(["unum"]):
                nv = self.param_unum(v.key)
            elif t == frozenset(["none"]):
                nv = C(None)
            elif t == frozenset(["str"]):
                nv = None
            elif t == frozenset(["dict"]):
                nv = self.alloc(st, Dct({}, owner=v.key, open=True), key=("arg", v.key))
            elif t and t <= frozenset(["ndarray", "masked", "list", "tuple"]):
                nv = self.alloc(st, Arr(leaf(v.key), self.param_tag(v.key), owner=v.key), key=("arg", v.key))
            elif len(t) == 1 and next(iter(t)) in self.prog.classes:
                nv = self.materialise_obj(st, self.prog.classes[next(iter(t))], v.key, key=("arg", v.key))
            if nv is None:
                return v
            st.binds[v.key] = nv
            v = nv
        return v

    def param_tag(self, key):
        u = self.param_units.get(key)
        return ex.mono(("u", u, self.unit_role(u.split(":")[-1]))) if u else None

    def param_unum(self, key):
        base = key.split(":")[-1].split(".")[-1]
        if "unit" in base:
            return U(ex.mono(("u", key, self.unit_role(base))), (), None, leaf(key))
        return U(ex.mono(("u", key, None)), ex.mono(("u", key, None)), None, leaf(key))

    @staticmethod
    def unit_role(name):
        for r in ("times", "time", "values", "x", "y", "v"):
            if name.endswith("unit_" + r) or name.endswith("_" + r):
                return {"time": "times"}.get(r, r)
        return None

    def materialise_obj(self, st, ci, path, owner=True, key=None):
        return self.alloc(st, Inst(ci, {}, path if owner else None, path), key=key)

    def unit_atom(self, path, role):
        p = path.rsplit(".", 1)[0]
        for suf in (".fields[*]", ".point_sets[*]"):
            p = p.replace(suf, "")
        return ("u", p, role)

    def materialise_attr(self, st, oid, name):
        """Lazily create the attribute of a symbolic (or copied symbolic) instance."""
        o = st.heap[oid]
        path = o.lazy + "." + name
        owner = path if o.owner is not None else None
        spec = self.schema.spec(o.cls, name) if o.cls is not None else None
        if spec is None:
            v = S(path)
            if o.owner is None and path not in st.types:
                # copy of an unknown attribute: unknown fresh value
                v = X(leaf(path))
        elif spec[0] in ("arr", "bool"):
            tag = None
            if spec[0] == "bool":
                tag = ()
            elif spec[1]:
                role = {"x": "x", "y": "y"}.get(spec[3], spec[3])
                tag = ex.mono(self.unit_atom(o.lazy + "." + spec[1], role))
            elif spec[3] == "xy":
                tag = None
            v = self.alloc(st, Arr(leaf(path), tag, owner=owner, ty="bool" if spec[0] == "bool" else "num",
                                   ndim=spec[2]), key=(oid, name))
        elif spec[0] == "unit":
            v = U(ex.mono(self.unit_atom(path, spec[3])), (), None, leaf(path))
        elif spec[0] == "num" or spec[0] == "any":
            v = S(path)
            if o.owner is None:
                v = X(leaf(path))
        elif spec[0] == "str":
            st.types[path] = frozenset(["str"])
            v = S(path)
        elif spec[0] == "cls" and not (self.empty_ok and spec[1] and name == "field_type"):
            sp = self.schema.spec(o.cls, spec[1])
            v = K(self.prog.cls(sp[1])) if sp and sp[0] == "objs" else X(leaf(path))
        elif spec[0] == "cls":
            v = S(path) if o.owner is not None else X(leaf(path))
        elif spec[0] == "obj" and self.prog.cls(spec[1]) is not None:
            v = self.materialise_obj(st, self.prog.cls(spec[1]), path, owner=o.owner is not None, key=(oid, name))
        elif spec[0] == "objs":
            el = self.prog.cls(spec[1])
            ev = self.materialise_obj(st, el, path + "[*]", owner=o.owner is not None, key=(oid, name, "[*]"))
            v = self.alloc(st, Lst(None, ev, owner=owner, lazy=path, kind="list",
                                   lenx=mk("call", "len", (leaf(path),), ())), key=(oid, name))
        else:
            v = X(leaf(path))
        st.heap[oid] = st.heap[oid].with_attr(name, v)
        return v

    # ------------------------------------------------------------------ expressions of values
    def expr_of(self, st, v, depth=0):
        v = self.conc(st, v)
        if isinstance(v, C):
            return const(v.v)
        if isinstance(v, (N, X)):
            return v.expr
        if isinstance(v, U):
            return v.expr if v.expr is not None else opaque()
        if isinstance(v, S):
            return leaf(v.key)
        if isinstance(v, T):
            return mk("tup", *[self.expr_of(st, x, depth + 1) for x in v.items])
        if isinstance(v, R):
            es = []
            for o in v.oids:
                h = st.heap[o]
                if isinstance(h, Arr):
                    es.append(self.arr_expr(st, o))
                elif isinstance(h, Inst):
                    if h.lazy and not h.attrs:
                        es.append(leaf(h.lazy))
                    elif depth > 3:
                        es.append(leaf(h.lazy) if h.lazy else mk("opq", ("obj", o), frozenset()))
                    else:
                        parts = [leaf(h.lazy)] if h.lazy else []
                        for k in sorted(h.attrs):
                            parts.append(self.expr_of(st, h.attrs[k], depth + 1))
                        d = frozenset().union(*[ex.deps(p) for p in parts]) if parts else frozenset()
                        es.append(mk("opq", ("obj", tuple(parts)), d))
                elif isinstance(h, Lst):
                    if h.items is not None:
                        es.append(mk("tup", *[self.expr_of(st, x, depth + 1) for x in h.items]))
                    elif h.lazy:
                        es.append(leaf(h.lazy))
                    elif h.elem is not None:
                        es.append(mk("call", "listof", (self.expr_of(st, h.elem, depth + 1),), ()))
                    else:
                        es.append(mk("opq", ("lst", o), frozenset()))
                elif isinstance(h, Dct):
                    es.append(mk("tup", *[self.expr_of(st, x, depth + 1) for x in h.items.values()]))
            return phi(es) if es else opaque()
        if isinstance(v, E):
            return mk("ext", v.name)
        if isinstance(v, K):
            return mk("ext", "class:" + v.ci.qual)
        if isinstance(v, F):
            return mk("ext", "func:" + v.fi.qual)
        if isinstance(v, B):
            return mk("call", "bound", (self.expr_of(st, v.recv, depth + 1),), ())
        if isinstance(v, XM):
            return mk("attr", v.name, self.expr_of(st, v.recv, depth + 1))
        return mk("opq", ("val", type(v).__name__), frozenset())

    def arr_expr(self, st, oid):
        h = st.heap[oid]
        if h.base is None:
            return h.expr
        boid, op = h.base
        be = self.arr_expr(st, boid)
        return self.apply_view(op, be)

    @staticmethod
    def apply_view(op, be):
        if op[0] == "idx":
            return models.mk_idx(be, op[1])
        if op[0] == "same":
            return be
        return models.mk_view(op[1], op[2], be)

    def make_view(self, st, oid, op, tag=Ellipsis, ndim=None, ty=None):
        h = st.heap[oid]
        nb = (oid, op)
        return self.alloc(st, Arr(None, h.tag if tag is Ellipsis else tag, base=nb, owner=None, ma=None,
                                  ty=ty or h.ty, ndim=ndim))

    def root(self, st, oid):
        """Ultimate base array of a view."""
        seen = 0
        while isinstance(st.heap[oid], Arr) and st.heap[oid].base is not None and seen < 20:
            oid = st.heap[oid].base[0]
            seen += 1
        return oid

    def owner_of(self, st, oid):
        h = st.heap[self.root(st, oid)]
        return h.owner

    def set_arr(self, st, oid, newexpr, tag=Ellipsis, node=None, what="array content", definite=True):
        """Overwrite the content of an array (through views)."""
        h = st.heap[oid]
        own = self.owner_of(st, oid)
        if own is not None:
            self.write(st, own, node, what)
        if h.base is None:
            st.heap[oid] = h.rep(expr=newexpr if definite else phi([h.expr, newexpr]),
                                 tag=h.tag if tag is Ellipsis else tag)
        else:
            boid, op = h.base
            be = self.arr_expr(st, boid)
            if op[0] == "idx":
                nb = models.mk_store(be, op[1], newexpr)
            elif op[0] == "same":
                nb = newexpr
            else:
                nb = models.unview(op[1], op[2], newexpr, be)
            st.heap[oid] = h.rep(tag=h.tag if tag is Ellipsis else tag)
            bt = st.heap[boid].tag
            self._set_base(st, boid, nb, self.join_tag(bt, h.tag if tag is Ellipsis else tag))

    def _set_base(self, st, oid, nb, tag):
        h = st.heap[oid]
        if h.base is None:
            st.heap[oid] = h.rep(expr=nb, tag=tag)
            return
        boid, op = h.base
        be = self.arr_expr(st, boid)
        if op[0] == "idx":
            nb2 = models.mk_store(be, op[1], nb)
        elif op[0] == "same":
            nb2 = nb
        else:
            nb2 = models.unview(op[1], op[2], nb, be)
        self._set_base(st, boid, nb2, tag)

    @staticmethod
    def join_tag(a, b):
        if a == b:
            return a
        if a == ANY:
            return b
        if b == ANY:
            return a
        return None

    # ------------------------------------------------------------------ tags
    def tag_of(self, st, v):
        v = self.conc(st, v)
        if isinstance(v, C):
            if isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
                if v.v == 0 or v.v != v.v:
                    return ANY
                return "lit"
            return None
        if isinstance(v, N):
            return v.tag
        if isinstance(v, R):
            ts = [st.heap[o].tag if isinstance(st.heap[o], Arr) else self.list_tag(st, o) for o in v.oids]
            t = ts[0]
            for u in ts[1:]:
                t = self.join_tag(t, u)
            return t
        if isinstance(v, T):
            t = None
            for i, x in enumerate(v.items):
                u = self.tag_of(st, x)
                t = u if i == 0 else self.join_tag(t, u)
            return t
        return None

    def list_tag(self, st, o):
        h = st.heap[o]
        if isinstance(h, Lst):
            if h.items:
                t = self.tag_of(st, h.items[0])
                for x in h.items[1:]:
                    t = self.join_tag(t, self.tag_of(st, x))
                return t
            if h.elem is not None:
                return self.tag_of(st, h.elem)
        return None

    # ------------------------------------------------------------------ joins
    def join_val(self, sa, a, sb, b, out):
        if a == b:
            return a
        if isinstance(a, R) and isinstance(b, R):
            u = self.unify(sa, a, sb, b, out)
            if u is not None:
                return u
            o = tuple(sorted(set(a.oids) | set(b.oids)))
            if len(o) > 4:
                c = self.collapse(sa, sb, o, out)
                if c is not None:
                    return c
            if len(o) <= 8:
                return R(o)
            return X(phi([self.expr_of(sa, a), self.expr_of(sb, b)]), o[:20])
        ea, eb = self.expr_of(sa, a), self.expr_of(sb, b)
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
            return T([self.join_val(sa, x, sb, y, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, U) and isinstance(b, U):
            if a.eff() == b.eff():
                return U(a.mon, a.tn, a.disp if a.disp == b.disp else None, phi([ea, eb]), a.arr)
            return X(phi([ea, eb]), ty="unum")
        num = lambda v: isinstance(v, N) or (isinstance(v, C) and isinstance(v.v, (int, float, bool))
                                             and v.v is not None)
        if num(a) and num(b):
            ta = a.tag if isinstance(a, N) else (ANY if a.v == 0 else "lit")
            tb = b.tag if isinstance(b, N) else (ANY if b.v == 0 else "lit")
            t = self.join_tag(ta, tb)
            ty = a.ty if isinstance(a, N) and isinstance(b, N) and a.ty == b.ty else "num"
            return N(phi([ea, eb]), t, ty)
        refs = set()
        for s, v in ((sa, a), (sb, b)):
            if isinstance(v, R):
                refs |= set(v.oids)
            elif isinstance(v, X):
                refs |= set(v.refs)
        ty = a.ty if isinstance(a, X) and isinstance(b, X) and a.ty == b.ty else None
        return X(phi([ea, eb]), tuple(sorted(refs))[:20], ty)

    def collapse(self, sa, sb, oids, out):
        """Many candidate fresh arrays become one array of unknown (joined) content."""
        es, tag, nd, ty = [], None, None, None
        for i, o in enumerate(oids):
            s = sa if o in sa.heap else sb
            h = s.heap.get(o)
            if not isinstance(h, Arr) or h.ma is not None or self.owner_of(s, o) is not None:
                return None
            es.append(self.arr_expr(s, o))
            tag = h.tag if i == 0 else self.join_tag(tag, h.tag)
            nd = h.ndim if i == 0 or nd == h.ndim else None
            ty = h.ty if i == 0 or ty == h.ty else None
        n = self.new_oid()
        out.heap[n] = Arr(phi(es), tag, ty=ty, ndim=nd)
        return R((n,))

    def unify(self, sa, a, sb, b, out):
        """Two objects allocated independently on the two sides become one joined object."""
        if len(a.oids) != 1 or len(b.oids) != 1 or sa is sb or self._jm is None:
            return None
        o1, o2 = a.oids[0], b.oids[0]
        if (o1, o2) in self._jm:
            return R((self._jm[(o1, o2)],))
        if o1 in sb.heap or o2 in sa.heap or o1 not in sa.heap or o2 not in sb.heap:
            return None
        if o1 in self._jl or o2 in self._jr:
            return None
        h1, h2 = sa.heap[o1], sb.heap[o2]
        if type(h1) is not type(h2) or h1.owner is not None or h2.owner is not None:
            return None
        if isinstance(h1, Inst) and (h1.cls is not h2.cls or h1.lazy != h2.lazy):
            return None
        if isinstance(h1, Arr):
            if h1.base is not None or h2.base is not None:
                if h1.base is None or h2.base is None or h1.base[1] != h2.base[1]:
                    return None
                if h1.base[0] != h2.base[0]:
                    return None
            if (h1.ma is None) != (h2.ma is None) or h1.kind != h2.kind:
                return None
        if isinstance(h1, Lst) and h1.kind != h2.kind:
            return None
        n = self.new_oid()
        self._jm[(o1, o2)] = n
        self._jl.add(o1)
        self._jr.add(o2)
        out.heap[n] = h1
        out.heap[n] = self.join_obj(sa, h1, sb, h2, out)
        return R((n,))

    def join_obj(self, sa, a, sb, b, out):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        if isinstance(a, Arr):
            if a.base != b.base:
                e = phi([x.expr if x.base is None else opaque() for x in (a, b)])
                return Arr(e, self.join_tag(a.tag, b.tag), None, a.owner, None, a.ty, a.ndim)
            if a.base is not None:
                return a.rep(tag=self.join_tag(a.tag, b.tag))
            return a.rep(expr=phi([a.expr, b.expr]), tag=self.join_tag(a.tag, b.tag),
                         ma=a.ma if a.ma == b.ma else (phi([a.ma, b.ma]) if a.ma is not None and b.ma is not None
                                                       else None))
        if isinstance(a, Inst):
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                if k in a.attrs and k in b.attrs:
                    at[k] = self.join_val(sa, a.attrs[k], sb, b.attrs[k], out)
                elif a.lazy:
                    # not materialised on one side: still the input value there
                    has = a.attrs.get(k, b.attrs.get(k))
                    hs = sa if k in a.attrs else sb
                    if self.is_input_attr(hs, has, a.lazy + "." + k):
                        at[k] = has
                    else:
                        ex_ = self.expr_of(hs, has)
                        at[k] = X(phi([ex_, leaf(a.lazy + "." + k)]),
                                  has.oids if isinstance(has, R) else (has.refs if isinstance(has, X) else ()))
                else:
                    at[k] = a.attrs.get(k, b.attrs.get(k))
            return Inst(a.cls, at, a.owner, a.lazy)
        if isinstance(a, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return a.rep(items=tuple(self.join_val(sa, x, sb, y, out) for x, y in zip(a.items, b.items)))
            el = None
            vals = []
            for s, o in ((sa, a), (sb, b)):
                for x in (o.items or ()):
                    vals.append((s, x))
                if o.elem is not None:
                    vals.append((s, o.elem))
            for s, x in vals:
                el = x if el is None else self.join_val(out, el, out, x, out)
            return a.rep(items=None, elem=el, lazy=None)
        if isinstance(a, Dct):
            it = {}
            for k in set(a.items) | set(b.items):
                if k in a.items and k in b.items:
                    it[k] = self.join_val(sa, a.items[k], sb, b.items[k], out)
            return a.rep(items=it, open=True)
        return a

    def is_input_attr(self, st, v, path):
        v = self.conc(st, v)
        if isinstance(v, R) and len(v.oids) == 1:
            h = st.heap[v.oids[0]]
            if isinstance(h, Arr):
                return h.base is None and h.expr == leaf(path)
            return getattr(h, "owner", None) == path or getattr(h, "lazy", None) == path
        if isinstance(v, (U, X, N)):
            return v.expr == leaf(path)
        return isinstance(v, S) and v.key == path

    def align(self, a, b):
        """Materialise on each side the input attributes the other side has already read."""
        work = [o for o, h in a.heap.items() if isinstance(h, Inst) and h.lazy]
        n = 0
        while work and n < 400:
            n += 1
            o = work.pop()
            h, g = a.heap.get(o), b.heap.get(o)
            if h is g or not isinstance(h, Inst) or not isinstance(g, Inst) or h.lazy != g.lazy:
                continue
            for k in sorted(set(h.attrs) ^ set(g.attrs)):
                s = a if k not in h.attrs else b
                v = self.materialise_attr(s, o, k)
                if isinstance(v, R):
                    w = s.heap[v.oids[0]]
                    if isinstance(w, Lst) and isinstance(w.elem, R):
                        work.extend(w.elem.oids)

    def join_states(self, a, b):
        self.merged += 1
        self.align(a, b)
        self._jm, self._jl, self._jr = {}, set(), set()
        out = a.fork()
        out.heap = dict(a.heap)
        for o, h in list(b.heap.items()):
            if o not in out.heap:
                out.heap[o] = h
        for o, h in list(b.heap.items()):
            if o in a.heap and a.heap[o] is not h:
                out.heap[o] = self.join_obj(a, a.heap[o], b, h, out)
        fr = {}
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                fr[fid] = fa or fb
                continue
            if fa is fb:
                fr[fid] = fa
                continue
            d = {}
            for k in set(fa) | set(fb):
                if k in fa and k in fb:
                    d[k] = fa[k] if fa[k] == fb[k] else self.join_val(a, fa[k], b, fb[k], out)
                else:
                    d[k] = fa.get(k, fb.get(k))     # bound on one side only: keep (unboundness is judged before joins)
            fr[fid] = d
        out.frames = fr
        out.binds = {k: v for k, v in a.binds.items() if b.binds.get(k) == v}
        # keep materialised heap bindings that only exist on one side
        for s in (a, b):
            for k, v in s.binds.items():
                if isinstance(v, R) and k not in out.binds:
                    ov = (b if s is a else a).binds.get(k)
                    if ov is None or isinstance(ov, R):
                        out.binds[k] = v
        types = {}
        for k in set(a.types) & set(b.types):
            types[k] = a.types[k] | b.types[k]
        for s in (a, b):
            for k, v in out.binds.items():
                if k in s.types and k not in types:
                    types[k] = s.types[k]
        out.types = types
        out.neq = {k: a.neq[k] & b.neq[k] for k in a.neq if k in b.neq}
        out.assume = {k: v for k, v in a.assume.items() if b.assume.get(k) == v}
        out.writes = a.writes + tuple(w for w in b.writes if w not in a.writes)
        out.events = a.events + tuple(w for w in b.events if w not in a.events)
        out.numf = max(a.numf, b.numf) + 1
        out.optf = max(a.optf, b.optf)
        out.stack = a.stack
        i = 0
        while i < len(a.trail) and i < len(b.trail) and a.trail[i] == b.trail[i]:
            i += 1
        out.trail = a.trail[:i]
        return out

    # ------------------------------------------------------------------ lossless merging
    def signature(self, st, ret=None):
        """Canonical form of everything reachable; two states with the same signature differ only in assumptions."""
        num = {}
        order = []

        def cv(v):
            if isinstance(v, R):
                r = []
                for o in v.oids:
                    n = num.get(o)
                    if n is None:
                        n = num[o] = len(num)
                        order.append(o)
                    r.append(n)
                return ("R",) + tuple(r)
            if isinstance(v, T):
                return ("T",) + tuple(cv(x) for x in v.items)
            if isinstance(v, X):
                r = []
                for o in v.refs:
                    n = num.get(o)
                    if n is None:
                        n = num[o] = len(num)
                        order.append(o)
                    r.append(n)
                return ("X", v.expr, v.ty) + tuple(r)
            if isinstance(v, XM):
                return ("XM", cv(v.recv), v.name)
            if isinstance(v, B):
                return ("B", cv(v.fn), cv(v.recv))
            if isinstance(v, SU):
                return ("SU", v.cls.qual if v.cls else None, cv(v.recv))
            return v
        sig = [cv(ret) if ret is not None else None]
        for fid in sorted(st.frames):
            fr = st.frames[fid]
            sig.append((fid, tuple((k, cv(fr[k]) if isinstance(fr[k], Val) else fr[k]) for k in sorted(fr))))
        for k in sorted(st.binds):
            sig.append((k, cv(st.binds[k])))
        for k in sorted(st.mats):
            sig.append((k, cv(st.mats[k])))
        sig.append(tuple(sorted((k, tuple(sorted(v))) for k, v in st.types.items())))
        sig.append(tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in st.neq.items())))
        # owned objects that are no longer referenced still matter
        i = 0
        own = sorted(o for o, h in st.heap.items() if getattr(h, "owner", None) is not None)
        for o in own:
            cv(R((o,)))
        while i < len(order):
            h = st.heap.get(order[i])
            i += 1
            if h is None:
                sig.append(None)
            elif isinstance(h, Arr):
                b = None
                if h.base is not None:
                    b = (cv(R((h.base[0],))), h.base[1])
                sig.append(("A", h.expr, h.tag, b, h.owner, h.ma, h.ty, h.ndim, h.kind))
            elif isinstance(h, Inst):
                sig.append(("I", h.cls.qual if h.cls else None, h.owner, h.lazy,
                            tuple((k, cv(h.attrs[k])) for k in sorted(h.attrs))))
            elif isinstance(h, Lst):
                sig.append(("L", None if h.items is None else tuple(cv(x) for x in h.items),
                            cv(h.elem) if h.elem is not None else None, h.owner, h.lazy, h.kind, h.lenx))
            elif isinstance(h, Dct):
                sig.append(("D", tuple(sorted(((repr(k), cv(v)) for k, v in h.items.items()), key=lambda kv: kv[0])),
                            h.owner, h.open))
        return tuple(sig)

    def absorb(self, p, s):
        p.writes = p.writes + tuple(w for w in s.writes if w not in p.writes)
        p.events = p.events + tuple(w for w in s.events if w not in p.events)
        p.assume = {e: b for e, b in p.assume.items() if s.assume.get(e) == b}
        p.numf = min(p.numf, s.numf)
        p.optf = min(p.optf, s.optf)
        i = 0
        while i < len(p.trail) and i < len(s.trail) and p.trail[i] == s.trail[i]:
            i += 1
        p.trail = p.trail[:i]
        self.lossless += 1

    def cheap(self, pairs):
        """Merge pairs whose states differ only in what was assumed on the way."""
        if len(pairs) < 2:
            return pairs
        out = []
        for s, v in pairs:
            for p, w in out:
                if (v == w and len(p.heap) == len(s.heap) and p.binds == s.binds and p.types == s.types
                        and p.neq == s.neq and p.frames == s.frames and p.heap == s.heap and p.mats == s.mats):
                    self.absorb(p, s)
                    break
            else:
                out.append((s, v))
        return out

    def ite_val(self, cond, sa, a, sb, b):
        """Value equal to a when cond holds and to b otherwise; None when the two must be kept apart."""
        if a == b:
            return a

        def num(v):
            return isinstance(v, N) or (isinstance(v, C) and isinstance(v.v, (int, float))
                                        and not isinstance(v.v, bool))
        if num(a) and num(b):
            t = self.tag_ite(self.tag_of(sa, a), self.tag_of(sb, b))
            if t is None:
                return None
            t = t[0]
            ints = all((isinstance(v, N) and v.ty == "int") or (isinstance(v, C) and isinstance(v.v, int))
                       for v in (a, b))
            bools = all(isinstance(v, N) and v.ty == "bool" for v in (a, b))
            return N(models.mk_ite(cond, self.expr_of(sa, a), self.expr_of(sb, b)), t,
                     "int" if ints else ("bool" if bools else "num"))
        if isinstance(a, X) and isinstance(b, X) and a.refs == b.refs and a.ty == b.ty:
            return X(models.mk_ite(cond, a.expr, b.expr), a.refs, a.ty)
        if isinstance(a, R) and isinstance(b, R) and len(a.oids) == 1 and len(b.oids) == 1:
            o1, o2 = a.oids[0], b.oids[0]
            h1, h2 = sa.heap[o1], sb.heap[o2]
            if isinstance(h1, Arr) and isinstance(h2, Arr) and o1 not in sb.heap and o2 not in sa.heap \
                    and h1.base is None and h2.base is None and h1.owner is None and h2.owner is None \
                    and h1.ty == h2.ty and h1.ndim == h2.ndim and h1.ma == h2.ma and h1.kind == h2.kind \
                    and self.tag_ite(h1.tag, h2.tag) is not None:
                if (o1, o2) in self._pair:
                    return R((self._pair[(o1, o2)],))
                if any(o1 == p or o2 == q for p, q in self._pair):
                    return None
                n = self.new_oid()
                self._pair[(o1, o2)] = n
                return R((n,))
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
            r = [self.ite_val(cond, sa, x, sb, y) for x, y in zip(a.items, b.items)]
            return None if any(x is None for x in r) else T(r)
        return None

    @staticmethod
    def tag_ite(ta, tb):
        if ta == tb:
            return (ta,)
        if ta == ANY:
            return (tb,)
        if tb == ANY:
            return (ta,)
        if "lit" in (ta, tb) and () in (ta, tb):
            return ((),)
        return None

    def ite_obj(self, cond, sa, h, sb, g):
        if type(h) is not type(g):
            return None
        if isinstance(h, Arr):
            if h.base != g.base or h.owner != g.owner or h.ty != g.ty or h.ndim != g.ndim or h.kind != g.kind:
                return None
            t = self.tag_ite(h.tag, g.tag)
            if t is None:
                return None
            if h.ma != g.ma:
                return None
            if h.base is not None:
                return h.rep(tag=t[0])
            return h.rep(expr=models.mk_ite(cond, h.expr, g.expr), tag=t[0])
        if isinstance(h, Inst):
            if set(h.attrs) != set(g.attrs):
                # an attribute read in one branch only is still the input value in the other
                if not h.lazy:
                    return None
                for k in set(h.attrs) ^ set(g.attrs):
                    hs, v = (sa, h.attrs[k]) if k in h.attrs else (sb, g.attrs[k])
                    if not self.is_input_attr(hs, v, h.lazy + "." + k):
                        return None
            at = dict(g.attrs)
            for k, x in h.attrs.items():
                if k in g.attrs and g.attrs[k] != x:
                    v = self.ite_val(cond, sa, x, sb, g.attrs[k])
                    if v is None or isinstance(v, R):
                        return None
                    at[k] = v
                else:
                    at[k] = x
            return Inst(h.cls, at, h.owner, h.lazy)
        return None

    def try_ite(self, pre_numf, pre_assume, a, va, b, vb, fid):
        """Gated join of the two outcomes of one data-dependent branch; None when not possible without loss."""
        if a.binds != b.binds or a.types != b.types or a.neq != b.neq or a.mats != b.mats:
            return None
        ks = sorted(e for e in a.assume if a.assume[e] is True and b.assume.get(e) is False and e not in pre_assume)
        ks += sorted(e for e in a.assume if a.assume[e] is False and b.assume.get(e) is True and e not in pre_assume)
        if not ks:
            return None
        self.align(a, b)
        cond = ks[0] if len(ks) == 1 else mk("tup", *ks)
        if a.assume[ks[0]] is False:
            cond = mk("un", "not", cond)
        newobj = {}
        for o, h in a.heap.items():
            g = b.heap.get(o)
            if g is None or g is h:
                continue
            n = self.ite_obj(cond, a, h, b, g)
            if n is None:
                return None
            newobj[o] = n
        if set(a.frames) != set(b.frames):
            return None
        self._pair = {}
        newvars = {}
        for f in a.frames:
            fa, fb = a.frames[f], b.frames[f]
            if fa is fb or fa == fb:
                continue
            if f != fid:
                return None
            for k in set(fa) | set(fb):
                if k not in fa or k not in fb:
                    return None
                x, y = fa[k], fb[k]
                if x is y or x == y:
                    continue
                v = self.ite_val(cond, a, x, b, y)
                if v is None:
                    return None
                newvars[k] = v
        vv = None
        if va is not None:
            vv = self.ite_val(cond, a, va, b, vb)
            if vv is None:
                return None
        for o, h in list(b.heap.items()):
            if o not in a.heap:
                a.heap[o] = h
        for (o1, o2), n in self._pair.items():
            h1, h2 = a.heap[o1], b.heap[o2]
            t = self.tag_ite(h1.tag, h2.tag)
            a.heap[n] = h1.rep(expr=models.mk_ite(cond, h1.expr, h2.expr), tag=t[0] if t else None)
        a.heap.update(newobj)
        if newvars:
            fr = dict(a.frames[fid])
            fr.update(newvars)
            a.frames[fid] = fr
        n0 = min(a.numf, b.numf)
        self.absorb(a, b)
        a.numf = max(pre_numf, n0 - 1)
        return a, vv

    def dedupe(self, pairs):
        """Merge (state, value) pairs with equal signatures."""
        if len(pairs) < 2:
            return pairs
        seen = {}
        out = []
        for s, v in pairs:
            try:
                k = self.signature(s, v)
                hash(k)
            except TypeError:
                out.append((s, v))
                continue
            if k in seen:
                self.absorb(out[seen[k]][0], s)
            else:
                seen[k] = len(out)
                out.append((s, v))
        return out

    def cap_at(self, states):
        d = len(states[0].stack) if states else 0
        return self.max_states if d <= 2 else max(3, min(self.max_states, 10 if d == 3 else 6))

    def limit(self, states, cap=None):
        cap = cap or self.cap_at(states)
        if len(states) > 1:
            states = [s for s, _ in self.cheap([(s, None) for s in states])]
        if len(states) > cap:
            states = [s for s, _ in self.dedupe([(s, None) for s in states])]
        if len(states) <= cap:
            return states
        # group by option bindings first
        groups = {}
        for s in states:
            k = (tuple(sorted((k, repr(v)) for k, v in s.binds.items() if isinstance(v, C))), s.trail[:3])
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            while len(g) > 2:
                g = [self.join_states(g[i], g[i + 1]) if i + 1 < len(g) else g[i] for i in range(0, len(g), 2)]
            out.extend(g)
        while len(out) > cap:
            out = [self.join_states(out[i], out[i + 1]) if i + 1 < len(out) else out[i]
                   for i in range(0, len(out), 2)]
        return out

    # ------------------------------------------------------------------ raising
    def raise_(self, st, exc, node=None, msg=None):
        if self.cur_ctx:
            self.raise_site[id(node)] = self.cur_ctx[-1].fi.qual
        st.rsite = tuple(q for q, _ in st.stack)
        self.rsinks[-1].append((st, exc, node))

    # ------------------------------------------------------------------ entry
    def run_entry(self, F_, args, st, kwargs=None):
        """-> list of Exit"""
        self.rsinks = [[]]
        self.raise_site = {}
        self.guards = []
        self.cur_ctx = []
        res = self.call(st, F_, args, kwargs or {}, None)
        exits = [Exit("return", s, v) for s, v in res]
        exits += [Exit("raise", s, n, e) for s, e, n in self.rsinks[0]]
        return exits

    # ------------------------------------------------------------------ names
    def lookup_name(self, st, ctx, name, node):
        fr = st.frames.get(ctx.fid, {})
        if name in fr:
            return fr[name]
        if name in ctx.fi.locals and not ctx.fi.lambda_expr:
            self.note("unbound-local", node, "local variable '%s' is read before any assignment" % name, st)
            self.raise_(st, "UnboundLocalError", node)
            return None
        # closure
        fi, F_ = ctx.fi, ctx.F
        fid = F_.fid if F_ is not None else None
        hops = 0
        while fid is not None and hops < 10:
            hops += 1
            fr = st.frames.get(fid)
            if fr is None:
                return X(opaque(tag="closure"))
            if name in fr:
                return fr[name]
            fid = fr.get("@parent")
        v = self.module_name(ctx.fi.module, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return E("builtins." + name)
        if name in ("__file__", "__name__", "__doc__"):
            return X(opaque(tag=name), ty="str")
        self.note("undefined-name", node, "name '%s' is not defined" % name, st)
        self.raise_(st, "NameError", node)
        return None

    def module_name(self, mod, name):
        key = (mod.name, name)
        if key in self.mod_cache:
            return self.mod_cache[key]
        bl = self.prog.module_lookup(mod, name)
        if bl is None:
            return None
        v = self.from_binding(mod, bl[-1], key)
        if len(bl) > 1 and isinstance(v, X):
            for b in reversed(bl[:-1]):
                w = self.from_binding(mod, b, key)
                if not isinstance(w, X):
                    v = w
                    break
        self.mod_cache[key] = v
        return v

    def from_binding(self, mod, b, key):
        r = self.prog.resolve_binding(mod, b)
        return self.from_static(r, key)

    def from_static(self, r, key=("?", "?")):
        if isinstance(r, FuncInfo):
            return F(r)
        if isinstance(r, ClassInfo):
            return K(r)
        if isinstance(r, Module):
            return M(r)
        if isinstance(r, str):
            return E(canon_ext(r))
        if isinstance(r, PropInfo):
            return P(r)
        if isinstance(r, tuple) and r[0] == "expr":
            return self.module_expr(r[1], r[2], key)
        return X(mk("opq", ("global",) + tuple(key), frozenset(["global:%s.%s" % tuple(key)])))

    def module_expr(self, mod, node, key):
        """Module level constants: literals, tuples of types and sums of those; everything else is opaque."""
        if isinstance(node, ast.Constant):
            return C(node.value)
        if isinstance(node, (ast.Tuple,)):
            return T([self.module_expr(mod, e, key) for e in node.elts])
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_static(mod, node)
            if r is not None:
                return self.from_static(r, key)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a, b = self.module_expr(mod, node.left, key), self.module_expr(mod, node.right, key)
            if isinstance(a, T) and isinstance(b, T):
                return T(a.items + b.items)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return C(-node.operand.value)
        p = "global:%s.%s" % tuple(key)
        return X(mk("opq", ("gexpr",) + tuple(key), frozenset([p])))

    # ------------------------------------------------------------------ attribute access
    def get_attr(self, st, v, name, node):
        """-> list of (st, val)"""
        v = self.conc(st, v)
        if isinstance(v, S):
            t = st.types.get(v.key)
            if t is not None and len(t) > 1 and t <= frozenset(self.prog.classes):
                out = []
                for q in sorted(t):
                    s2 = st.fork()
                    s2.types[v.key] = frozenset([q])
                    s2.trail = s2.trail + ("%s: %s" % (v.key, q.split(".")[-1]),)
                    out.extend(self.get_attr(s2, v, name, node))
                return out
            if t == frozenset(["str"]):
                return [(st, XM(v, name))]
            if t is not None and t <= NUMCATS | {"bool"}:
                return [(st, XM(v, name))]
            # duck object
            if t is None:
                st.binds[v.key] = self.alloc(st, Inst(None, {}, v.key, v.key))
                v = st.binds[v.key]
            else:
                return [(st, XM(v, name))]
        if isinstance(v, M):
            r = self.module_name(v.mod, name)
            if r is None:
                sub = v.mod.name + "." + name
                if sub in self.prog.modules:
                    return [(st, M(self.prog.modules[sub]))]
                if name in ("__file__", "__name__", "__doc__", "__path__"):
                    return [(st, X(opaque(), ty="str"))]
                self.note("missing-attribute", node, "module %s has no attribute '%s'" % (v.mod.name, name), st)
                self.raise_(st, "AttributeError", node)
                return []
            return [(st, r)]
        if isinstance(v, E):
            return [(st, E(canon_ext(v.name + "." + name)))]
        if isinstance(v, K):
            return self.class_attr(st, v, name, node)
        if isinstance(v, SU):
            start = self.class_of(st, v.recv)
            m = start.lookup_after(v.cls, name) if start is not None and v.cls is not None else None
            if m is None:
                if start is None or start.has_ext_base() or name in dir(object):
                    return [(st, XM(v, name))]
                self.note("missing-attribute", node, "no base class of %s provides '%s'" % (v.cls.name, name), st)
                self.raise_(st, "AttributeError", node)
                return []
            return self.bind_member(st, m, v.recv, start, name, node)
        if isinstance(v, P):
            f = {"fget": v.prop.fget, "fset": v.prop.fset, "fdel": v.prop.fdel}.get(name)
            if f is not None:
                return [(st, F(f))]
            return [(st, X(opaque()))]
        if isinstance(v, F):
            if name in ("__name__", "__doc__", "__qualname__"):
                return [(st, C(v.fi.name))]
            return [(st, X(opaque()))]
        if isinstance(v, B):
            return [(st, X(opaque()))]
        if isinstance(v, R):
            hs = [st.heap[o] for o in v.oids]
            if all(isinstance(h, Inst) for h in hs):
                if len(v.oids) == 1:
                    return self.inst_attr(st, v, v.oids[0], name, node)
                out = []
                for o in v.oids[:4]:
                    s2 = st.fork()
                    s2.numf += 1
                    s2.trail += ("one of several objects",)
                    self.choose(s2, v, R((o,)))
                    out.extend(self.inst_attr(s2, R((o,)), o, name, node))
                return out
            if any(isinstance(h, Inst) for h in hs):
                o = [o for o in v.oids if isinstance(st.heap[o], Inst)][0]
                return self.inst_attr(st, R((o,)), o, name, node)
            return models.data_attr(self, st, v, name, node)
        if isinstance(v, (U, X, N, C, T)):
            return models.data_attr(self, st, v, name, node)
        if isinstance(v, XM):
            return [(st, XM(v, name))]
        return [(st, X(opaque()))]

    @staticmethod
    def choose(st, multi, one):
        for fid, fr in list(st.frames.items()):
            ks = [k for k, x in fr.items() if isinstance(x, R) and x == multi]
            if ks:
                fr = dict(fr)
                for k in ks:
                    fr[k] = one
                st.frames[fid] = fr

    def class_of(self, st, v):
        v = self.conc(st, v)
        if isinstance(v, R) and len(v.oids) == 1 and isinstance(st.heap[v.oids[0]], Inst):
            return st.heap[v.oids[0]].cls
        return None

    def class_attr(self, st, v, name, node):
        ci = v.ci
        if name == "__name__":
            return [(st, C(ci.name))]
        m = ci.lookup(name)
        if m is None:
            if ci.has_ext_base() or hasattr(object, name) or name in ("__init__", "__new__", "__doc__", "__mro__", "__module__", "__dict__",
                                              "mro", "__bases__"):
                return [(st, XM(v, name))]
            if name in ci.all_attrs():
                return [(st, X(opaque()))]
            self.note("missing-attribute", node, "class %s has no attribute '%s'" % (ci.name, name), st)
            self.raise_(st, "AttributeError", node)
            return []
        if isinstance(m, FuncInfo):
            return [(st, F(m))]
        if isinstance(m, PropInfo):
            return [(st, P(m))]
        if isinstance(m, tuple) and m[0] == "expr":
            return [(st, self.module_expr(ci.module, m[1], (ci.qual, name)))]
        return [(st, X(opaque()))]

    def bind_member(self, st, m, recv, cls, name, node):
        if isinstance(m, FuncInfo):
            if m.is_static:
                return [(st, F(m))]
            if m.is_classm:
                return [(st, B(F(m), K(cls)))]
            return [(st, B(F(m), recv))]
        if isinstance(m, PropInfo):
            if m.fget is None:
                return [(st, X(opaque()))]
            return self.call(st, F(m.fget), [recv], {}, node)
        if isinstance(m, tuple) and m[0] == "expr":
            v = self.module_expr(cls.module, m[1], (cls.qual, name))
            return [(st, v)]
        return [(st, X(opaque()))]

    def inst_attr(self, st, v, oid, name, node):
        h = st.heap[oid]
        ci = h.cls
        if name == "__class__":
            return [(st, K(ci) if ci is not None else X(opaque()))]
        if name == "__dict__":
            return [(st, X(mk("attr", "__dict__", self.expr_of(st, v)), (oid,)))]
        if ci is None:
            if name in h.attrs:
                return [(st, h.attrs[name])]
            nv = S(h.lazy + "." + name) if h.lazy else X(opaque())
            if isinstance(nv, S) and h.owner is None:
                nv = X(leaf(h.lazy + "." + name))
            st.heap[oid] = st.heap[oid].with_attr(name, nv)
            return [(st, nv)]
        m = ci.lookup(name)
        if isinstance(m, PropInfo):
            return self.bind_member(st, m, v, ci, name, node)
        if name in h.attrs:
            return [(st, h.attrs[name])]
        if h.lazy is not None and (name in ci.all_attrs()) and not isinstance(m, FuncInfo):
            if not (isinstance(m, tuple)):
                return [(st, self.materialise_attr(st, oid, name))]
        if m is not None:
            return self.bind_member(st, m, v, ci, name, node)
        if name in ("__getattribute__", "__setattr__", "__init__", "__repr__", "__str__", "__hash__", "__doc__",
                    "__eq__", "__ne__", "__getattr__", "__reduce__", "__module__", "__sizeof__"):
            return [(st, XM(v, name))]
        if ci.has_ext_base() or ci.lookup("__getattr__") is not None:
            return [(st, X(mk("attr", name, self.expr_of(st, v))))]
        known = set()
        for sub in self.prog.subclasses(ci):
            known |= sub.all_attrs()
        for b in ci.mro():
            known |= b.self_attrs
        if name in known:
            if name in ci.all_attrs():
                # attribute assigned somewhere in the class but not in this object
                return [(st, X(opaque(tag=name)))]
            if h.lazy is None:
                pass
            else:
                return [(st, X(leaf(h.lazy + "." + name)))]
        if not (h.lazy and any(s in h.lazy for s in (".modes[*]", ".mean_field"))):     # class assumed, not known
            self.note("missing-attribute", node, "%s object has no attribute '%s'" % (ci.name, name), st)
        self.raise_(st, "AttributeError", node)
        return []

    def has_attr(self, st, v, name):
        """True/False/None"""
        v = self.conc(st, v)
        if isinstance(v, R) and len(v.oids) == 1:
            h = st.heap[v.oids[0]]
            if isinstance(h, Inst) and h.cls is not None:
                if name in h.attrs or h.cls.lookup(name) is not None:
                    return True
                if name not in h.cls.all_attrs():
                    if not h.cls.has_ext_base():
                        return False
                elif h.lazy is not None:
                    return True         # an object handed in was built by its constructor
        return None

    def set_attr(self, st, v, name, val, node):
        """-> list of states"""
        v = self.conc(st, v)
        if isinstance(v, S):
            r = self.get_attr(st, v, "@probe", node) if st.types.get(v.key) is None else []
            v = self.conc(st, v)
            if isinstance(v, S):
                t = st.types.get(v.key)
                if t is not None and len(t) > 1 and t <= frozenset(self.prog.classes):
                    out = []
                    for q in sorted(t):
                        s2 = st.fork()
                        s2.types[v.key] = frozenset([q])
                        out.extend(self.set_attr(s2, v, name, val, node))
                    return out
                self.write(st, v.key, node, "attribute " + name)
                return [st]
        if isinstance(v, R):
            out = []
            multi = len(v.oids) > 1
            sts = [st]
            for o in v.oids[:4]:
                nsts = []
                for s in sts:
                    h = s.heap[o]
                    if isinstance(h, Inst):
                        if multi:
                            s_keep = s.fork()
                            s_keep.numf += 1
                            nsts.append(s_keep)
                        nsts.extend(self.inst_set(s, R((o,)), o, name, val, node))
                    elif isinstance(h, Arr):
                        models.arr_set_attr(self, s, o, name, val, node)
                        nsts.append(s)
                    else:
                        nsts.append(s)
                sts = nsts
            return sts
        if isinstance(v, X):
            if v.refs and all(self.owner_of(st, o) is not None for o in v.refs):
                for o in v.refs:
                    self.write(st, self.owner_of(st, o), node, "attribute " + name)
            return [st]
        if isinstance(v, (M, E, K)):
            nm = v.mod.name if isinstance(v, M) else (v.name if isinstance(v, E) else v.ci.qual)
            self.event(st, "global-set", node, target=nm + "." + name)
            if isinstance(v, (M, K)):
                self.write(st, "global:%s.%s" % (nm, name), node, "attribute " + name)
            return [st]
        return [st]

    def inst_set(self, st, v, oid, name, val, node):
        h = st.heap[oid]
        ci = h.cls
        m = ci.lookup(name) if ci is not None else None
        if isinstance(m, PropInfo):
            if m.fset is None:
                self.note("readonly-property", node, "attribute '%s' of %s cannot be assigned" % (name, ci.name), st)
                self.raise_(st, "AttributeError", node)
                return []
            return [s for s, _ in self.call(st, F(m.fset), [v, val], {}, node)]
        if h.owner is not None:
            self.write(st, h.owner + "." + name, node, "attribute " + name)
        st.heap[oid] = st.heap[oid].with_attr(name, val)
        return [st]

    def check_novel(self, st, fn, args, kwargs, node):
        """the marked option value is handed to code outside the package (which judges it on its own)"""
        nm = getattr(fn, "name", "?")
        if nm in ("builtins.isinstance", "builtins.type", "builtins.print", "builtins.len", "builtins.bool"):
            return

        def has(v, d=0):
            v = self.conc(st, v)
            if isinstance(v, C):
                return isinstance(v.v, str) and self.novel in v.v
            if isinstance(v, T):
                return any(has(x, d + 1) for x in v.items)
            if isinstance(v, R) and d < 2:
                for o in v.oids:
                    h = st.heap[o]
                    if isinstance(h, Lst) and h.items is not None and any(has(x, d + 1) for x in h.items):
                        return True
                    if isinstance(h, Dct) and any(has(x, d + 1) for x in h.items.values()):
                        return True
                return False
            e = getattr(v, "expr", None)
            return False
        recv = getattr(fn, "recv", None)
        if any(has(a) for a in list(args) + list(kwargs.values())) or (recv is not None and has(recv)):
            self.event(st, "novel-ext", node, what=str(nm))

    # ------------------------------------------------------------------ calls
    def call(self, st, fn, args, kwargs, node, star_unknown=False):
        """-> list of (st, val)"""
        self.tick()
        fn = self.conc(st, fn)
        if isinstance(fn, F):
            return self.call_func(st, fn, args, kwargs, node, star_unknown)
        if isinstance(fn, B):
            if isinstance(fn.fn, F):
                return self.call_func(st, fn.fn, [fn.recv] + list(args), kwargs, node, star_unknown)
        if isinstance(fn, K):
            return self.instantiate(st, fn.ci, args, kwargs, node, star_unknown)
        if self.novel is not None:
            self.check_novel(st, fn, args, kwargs, node)
        if isinstance(fn, E):
            return models.call_ext(self, st, fn.name, args, kwargs, node)
        if isinstance(fn, XM):
            return models.call_method(self, st, fn.recv, fn.name, args, kwargs, node)
        if isinstance(fn, R) and len(fn.oids) == 1 and isinstance(st.heap[fn.oids[0]], Inst):
            h = st.heap[fn.oids[0]]
            m = h.cls.lookup("__call__") if h.cls else None
            if isinstance(m, FuncInfo):
                return self.call_func(st, F(m), [fn] + list(args), kwargs, node, star_unknown)
        es = [self.expr_of(st, a) for a in args]
        ks = tuple((k, self.expr_of(st, a)) for k, a in sorted(kwargs.items()))
        return [(st, X(mk("call", "dyn", (self.expr_of(st, fn),) + tuple(es), ks)))]

    def instantiate(self, st, ci, args, kwargs, node, star_unknown=False):
        if any("Exception" in b or "Error" in b or "Warning" in b for b in ci.ext_bases):
            return [(st, X(opaque(), ty="exc:" + ci.name))]
        r = self.alloc(st, Inst(ci, {}, None, None))
        init = ci.lookup("__init__")
        if init is None:
            return [(st, r)]
        return [(s, r) for s, _ in self.call_func(st, F(init), [r] + list(args), kwargs, node, star_unknown)]

    def default_val(self, st, fi, pname, dnode):
        if isinstance(dnode, ast.Constant):
            return C(dnode.value)
        if isinstance(dnode, ast.UnaryOp) and isinstance(dnode.operand, ast.Constant) \
                and isinstance(dnode.op, ast.USub):
            return C(-dnode.operand.value)
        key = "default:%s.%s" % (fi.qual, pname)
        if key in st.mats:
            return st.mats[key]
        if isinstance(dnode, (ast.List, ast.Tuple)) and not dnode.elts:
            if isinstance(dnode, ast.Tuple):
                v = T([])
            else:
                v = self.alloc(st, Lst((), owner=key))
        elif isinstance(dnode, ast.Dict) and not dnode.keys:
            v = self.alloc(st, Dct({}, owner=key))
        else:
            ctx = Ctx(fi, self.push_frame(st, {}), F(fi))
            self.cur_ctx.append(ctx)
            try:
                res = self.ev(dnode, st, ctx)
            finally:
                self.cur_ctx.pop()
            st.frames.pop(ctx.fid, None)
            if len(res) == 1 and res[0][0] is st:
                v = res[0][1]
            else:
                v = X(opaque())
            if isinstance(v, R):
                for o in v.oids:
                    h = st.heap[o]
                    if isinstance(h, Arr):
                        st.heap[o] = h.rep(owner=key)
                    elif isinstance(h, (Lst, Dct)):
                        st.heap[o] = h.rep(owner=key)
                    elif isinstance(h, Inst):
                        st.heap[o] = Inst(h.cls, h.attrs, key, h.lazy)
        st.mats[key] = v
        return v

    def push_frame(self, st, env):
        self.fidc += 1
        st.frames[self.fidc] = env
        return self.fidc

    def bind_args(self, st, F_, args, kwargs, node, star_unknown):
        fi = F_.fi
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        unknown_kw = kwargs.pop("**", None)
        pos = fi.params
        for i, a in enumerate(args[:len(pos)]):
            env[pos[i]] = a
        extra = args[len(pos):]
        err = None
        if extra and not fi.vararg:
            err = "takes %d positional arguments but %d were given" % (len(pos), len(args))
        if fi.vararg:
            env[fi.vararg] = T(extra)
        extrakw = {}
        for k, a in kwargs.items():
            if k in pos or k in fi.kwonly:
                if k in env:
                    err = "got multiple values for argument '%s'" % k
                env[k] = a
            elif fi.kwarg:
                extrakw[k] = a
            else:
                err = "got an unexpected keyword argument '%s'" % k
        if fi.kwarg:
            env[fi.kwarg] = self.alloc(st, Dct({C(k): v for k, v in extrakw.items()},
                                               open=unknown_kw is not None))
        missing = []
        for p_ in list(pos) + list(fi.kwonly):
            if p_ in env:
                continue
            d = fi.defaults.get(p_, fi.kwdefaults.get(p_))
            if star_unknown:
                env[p_] = X(opaque())
            elif d is not None:
                env[p_] = self.default_val(st, fi, p_, d)
            else:
                missing.append(p_)
        if missing:
            if unknown_kw is not None:
                for p_ in missing:
                    env[p_] = X(opaque())
            else:
                err = err or "missing required argument(s) %s" % ", ".join("'%s'" % m for m in missing)
        return env, err

    def call_func(self, st, F_, args, kwargs, node, star_unknown=False):
        fi = F_.fi
        self.calls_seen += 1
        short = fi.qual.split(".", 1)[1]
        model = models.REPO_MODELS.get(short)
        if model is not None:
            r = model(self, st, args, kwargs, node)
            if r is not None:
                return r
        depth = len(st.stack)
        same = sum(1 for q, _ in st.stack if q == fi.qual)
        if fi.decorated:
            es = [self.expr_of(st, a) for a in args]
            return [(st, X(mk("call", fi.qual, tuple(es), ())))]
        env, err = self.bind_args(st, F_, args, kwargs, node, star_unknown)
        if err:
            self.note("bad-call", node, "%s() %s" % (fi.name if fi.cls is None else fi.cls.name + "." + fi.name, err),
                      st)
            self.raise_(st, "TypeError", node)
            return []
        if depth >= self.max_depth or same >= 2:
            es = [self.expr_of(st, a) for a in env.values()]
            refs = []
            for a in env.values():
                a = self.conc(st, a)
                if isinstance(a, R):
                    refs.extend(a.oids)
            return [(st, X(mk("call", fi.qual, tuple(es), ())))]
        self.funcs_seen.add(fi.qual)
        if F_.fid is not None:
            env["@parent"] = F_.fid
        fid = self.push_frame(st, env)
        ctx = Ctx(fi, fid, F_)
        st.stack = st.stack + ((fi.qual, getattr(node, "lineno", 0)),)
        saved = st.stack[:-1]
        self.cur_ctx.append(ctx)
        self.rsinks.append([])
        try:
            if fi.lambda_expr:
                res = self.ev(fi.node.body, st, ctx)
                ctx.returns.extend(res)
                normal = []
            else:
                normal = self.block(fi.node.body, [st], ctx)
        finally:
            sink = self.rsinks.pop()
            self.cur_ctx.pop()
        out = []
        rets = ctx.returns + [(s, C(None)) for s in normal]
        if fi.is_gen:
            el = None
            rets2 = []
            ys = ctx.yields
            # one result state: the join of all normal exits
            for s, _ in rets:
                rets2.append(s)
            if rets2:
                s0 = rets2[0]
                for s in rets2[1:]:
                    s0 = self.join_states(s0, s)
                for s, yv in ys:
                    for o, hh in s.heap.items():
                        if o not in s0.heap:
                            s0.heap[o] = hh
                    el = yv if el is None else self.join_val(s0, el, s0, yv, s0)
                rets = [(s0, self.new_list(s0, None, el if el is not None else X(opaque()), kind="gen"))]
        for s, v in rets:
            s.stack = saved
            if not fi.has_nested and not fi.is_gen:
                s.frames.pop(fid, None)
            out.append((s, v))
        cnt = {}
        for s, e, n in sink:
            ck = (e, getattr(n, "lineno", 0), frozenset(w[0] for w in s.writes))
            cnt[ck] = cnt.get(ck, 0) + 1
            if cnt[ck] > 4:
                continue
            s.stack = saved
            s.frames.pop(fid, None)
            self.rsinks[-1].append((s, e, n))
        out = self.cheap(out)
        cap = self.cap_at([s for s, _ in out[:1]])
        if len(out) > cap:
            out = self.dedupe(out)
        if len(out) > cap:
            # merge results of an over-forking callee, keeping distinct value kinds apart
            groups = {}
            for s, v in out:
                groups.setdefault(repr(v) if isinstance(v, (C, K, F)) else type(v).__name__, []).append((s, v))
            out2 = []
            for g in groups.values():
                per = max(1, cap // len(groups))
                while len(g) > per:
                    ng = []
                    for i in range(0, len(g), 2):
                        if i + 1 < len(g):
                            s = self.join_states(g[i][0], g[i + 1][0])
                            ng.append((s, self.join_val(g[i][0], g[i][1], g[i + 1][0], g[i + 1][1], s)))
                        else:
                            ng.append(g[i])
                    g = ng
                out2.extend(g)
            out = out2
        return out

    # ------------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        """-> list of (st, bool)"""
        v = self.conc(st, v)
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, S):
            t = st.types.get(v.key)
            ek = leaf(v.key)
            if ek in st.assume:
                return [(st, st.assume[ek])]
            a, b = st, st.fork()
            a.optf += 1
            b.optf += 1
            if t == frozenset(["bool"]):
                a.binds[v.key] = C(True)
                b.binds[v.key] = C(False)
            elif t is not None and t <= frozenset(["none"]):
                return [(st, False)]
            else:
                if t is not None and "none" in t:
                    a.types[v.key] = t - {"none"}
            a.assume[ek] = True
            b.assume[ek] = False
            a.trail += ("%s truthy" % v.key,)
            b.trail += ("%s falsy" % v.key,)
            return [(a, True), (b, False)]
        if isinstance(v, (F, B, K, M, E, U, XM)):
            if isinstance(v, U):
                return self.fork_bool(st, self.expr_of(st, v))
            return [(st, True)]
        if isinstance(v, T):
            return [(st, len(v.items) > 0)]
        if isinstance(v, R):
            hs = [st.heap[o] for o in v.oids]
            if len(hs) == 1:
                h = hs[0]
                if isinstance(h, Lst) and h.items is not None:
                    return [(st, len(h.items) > 0)]
                if isinstance(h, Dct) and not h.open:
                    return [(st, len(h.items) > 0)]
                if isinstance(h, Inst) and h.cls is not None and h.cls.lookup("__len__") is None \
                        and h.cls.lookup("__bool__") is None:
                    return [(st, True)]
            return self.fork_bool(st, self.expr_of(st, v))
        if isinstance(v, (N, X)):
            return self.fork_bool(st, v.expr)
        return self.fork_bool(st, opaque())

    def fork_bool(self, st, e, numeric=True):
        n = ex.node(e)
        if n[0] == "const":
            return [(st, bool(n[2]))]
        if n[0] == "un" and n[1] == "not":
            return [(s, not b) for s, b in self.fork_bool(st, n[2], numeric)]
        if n[0] == "call" and n[1] == "numpy.logical_not" and len(n[2]) == 1 and False:
            pass
        if e in st.assume:
            return [(st, st.assume[e])]
        neg = None
        if n[0] == "cmp" and n[1] in ("!=", "=="):
            neg = mk("cmp", "==" if n[1] == "!=" else "!=", n[2], n[3])
            if neg in st.assume:
                return [(st, not st.assume[neg])]
        a, b = st, st.fork()
        if numeric:
            a.numf += 1
            b.numf += 1
        a.assume[e] = True
        b.assume[e] = False
        return [(a, True), (b, False)]

    def cond(self, node, st, ctx):
        """Evaluate a condition with short-circuiting. -> list of (st, bool)"""
        if isinstance(node, ast.BoolOp):
            cur = [(st, None)]
            isand = isinstance(node.op, ast.And)
            done = []
            live = [st]
            for v in node.values:
                nxt = []
                for s in live:
                    for s2, b in self.cond(v, s, ctx):
                        if isand:
                            (nxt.append(s2) if b else done.append((s2, False)))
                        else:
                            (done.append((s2, True)) if b else nxt.append(s2))
                live = nxt
            done.extend((s, isand) for s in live)
            return done
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, ctx)]
        out = []
        for s, v in self.ev(node, st, ctx):
            out.extend(self.truth(s, v, node))
        return out

    # ------------------------------------------------------------------ isinstance
    def cats_of_type(self, st, tv):
        """Set of categories matched by a type value; None when unknown."""
        tv = self.conc(st, tv)
        if isinstance(tv, T):
            r = set()
            for x in tv.items:
                c = self.cats_of_type(st, x)
                if c is None:
                    return None
                r |= c
            return r
        if isinstance(tv, K):
            return {c.qual for c in self.prog.subclasses(tv.ci)}
        if isinstance(tv, E):
            if tv.name in EXT_CATS:
                return set(EXT_CATS[tv.name])
            if tv.name.startswith("numpy.") and any(tv.name.split(".")[-1].startswith(p) for p in
                                                    ("int", "uint", "float")):
                return {"int"} if "int" in tv.name else {"float"}
            return set() if tv.name.startswith("numpy.") else None
        if isinstance(tv, R) and len(tv.oids) == 1 and isinstance(st.heap[tv.oids[0]], Lst) \
                and st.heap[tv.oids[0]].items is not None:
            return self.cats_of_type(st, T(st.heap[tv.oids[0]].items))
        return None

    def cats_of_val(self, st, v):
        v0 = v
        if isinstance(v, S) and v.key in st.types and v.key not in st.binds:
            return st.types[v.key]
        if isinstance(v, S) and v.key in st.types and not isinstance(st.binds.get(v.key), C):
            return st.types[v.key]
        v = self.conc(st, v)
        if isinstance(v, C):
            x = v.v
            if x is None:
                return frozenset(["none"])
            if isinstance(x, bool):
                return frozenset(["bool"])
            if isinstance(x, int):
                return frozenset(["int"])
            if isinstance(x, float):
                return frozenset(["float"])
            if isinstance(x, str):
                return frozenset(["str"])
            return frozenset(["other"])
        if isinstance(v, N):
            return {"int": frozenset(["int"]), "bool": frozenset(["bool"]), "float": frozenset(["float"])}.get(
                v.ty, frozenset(["float"]))
        if isinstance(v, U):
            return frozenset(["unum"])
        if isinstance(v, T):
            return frozenset(["tuple"])
        if isinstance(v, R):
            r = set()
            for o in v.oids:
                h = st.heap[o]
                if isinstance(h, Arr):
                    if h.owner and h.owner in st.types:
                        r |= st.types[h.owner]
                    else:
                        r.add("list" if h.kind == "list" else ("masked" if h.ma is not None else "ndarray"))
                elif isinstance(h, Lst):
                    r.add("tuple" if h.kind == "tuple" else ("ndarray" if h.kind == "objarr" else "list"))
                elif isinstance(h, Dct):
                    r.add("dict")
                elif isinstance(h, Inst):
                    if h.cls is None:
                        return None
                    r.add(h.cls.qual)
            return frozenset(r)
        if isinstance(v, X):
            if v.ty == "str":
                return frozenset(["str"])
            if v.ty == "unum":
                return frozenset(["unum"])
            return None
        if isinstance(v, (F, B, E)):
            return frozenset(["func"])
        if isinstance(v, K):
            return frozenset(["other"])
        return None

    def isinstance_(self, st, v, tv, node):
        want = self.cats_of_type(st, tv)
        if want is None:
            return self.fork_bool(st, mk("call", "isinstance", (self.expr_of(st, v), self.expr_of(st, tv)), ()))
        want = frozenset(want)
        if isinstance(v, S) and v.key not in st.binds:
            have = self.types_of(st, v.key)
            yes = have & want
            no = have - want
            out = []
            if yes and no:
                a, b = st, st.fork()
            else:
                a = b = st
            if no:
                b.types[v.key] = no
                if yes:
                    b.optf += 1
            if yes:
                # one fork per repository class that is named explicitly; basic categories together
                named = self.named_classes(st, tv)
                cl = [q for q in named if q in yes]
                basic = yes & BASECATS
                alts = ([basic] if basic else []) + [frozenset([q]) for q in cl]
                if not alts:
                    alts = [yes]
                for i, alt in enumerate(alts):
                    s2 = a if i == len(alts) - 1 else a.fork()
                    s2.types[v.key] = frozenset(alt)
                    if no:
                        s2.optf += 1
                        s2.trail += ("%s is %s" % (v.key, self.cat_name(alt)),)
                    out.append((s2, True))
            if no:
                if yes:
                    b.trail += ("%s is not %s" % (v.key, self.cat_name(yes)),)
                out.append((b, False))
            return out
        have = self.cats_of_val(st, v)
        if have is None:
            return self.fork_bool(st, mk("call", "isinstance", (self.expr_of(st, v), self.expr_of(st, tv)), ()),
                                  numeric=False)
        if have <= want:
            return [(st, True)]
        if not (have & want):
            return [(st, False)]
        e = mk("call", "isinstance", (self.expr_of(st, v), mk("opq", ("cats", tuple(sorted(want))), frozenset())), ())
        res = []
        for s2, b in self.fork_bool(st, e, numeric=False):
            if isinstance(v, S) and v.key in s2.types:
                s2.types[v.key] = (s2.types[v.key] & want) if b else (s2.types[v.key] - want)
            else:
                vv = self.conc(s2, v)
                if isinstance(vv, R) and len(vv.oids) == 1 and isinstance(s2.heap[vv.oids[0]], Arr):
                    ow = s2.heap[vv.oids[0]].owner
                    if ow and ow in s2.types:
                        s2.types[ow] = (s2.types[ow] & want) if b else (s2.types[ow] - want)
                elif isinstance(vv, R) and len(vv.oids) > 1:
                    pass
            res.append((s2, b))
        return res

    def named_classes(self, st, tv):
        tv = self.conc(st, tv)
        if isinstance(tv, K):
            return [tv.ci.qual]
        items = tv.items if isinstance(tv, T) else ()
        if isinstance(tv, R) and isinstance(st.heap[tv.oids[0]], Lst):
            items = st.heap[tv.oids[0]].items or ()
        r = []
        for x in items:
            r.extend(self.named_classes(st, x))
        return r

    @staticmethod
    def cat_name(cats):
        return "/".join(sorted(c.split(".")[-1] for c in cats)[:4])

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st, ctx):
        self.tick()
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return [(st, X(opaque(tag=type(node).__name__)))]
        return m(node, st, ctx)

    def ev_many(self, nodes, st, ctx):
        """-> list of (st, [vals])"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, ctx):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > 2 * self.max_states:
                nxt = self.squeeze_many(nxt)
            cur = nxt
        return cur

    def squeeze_many(self, cur):
        cur = [(s, list(v.items)) for s, v in self.cheap([(s, T(v)) for s, v in cur])]
        while len(cur) > self.max_states:
            nc = []
            for i in range(0, len(cur), 2):
                if i + 1 < len(cur):
                    (sa, va), (sb, vb) = cur[i], cur[i + 1]
                    s = self.join_states(sa, sb)
                    nc.append((s, [self.join_val(sa, x, sb, y, s) for x, y in zip(va, vb)]))
                else:
                    nc.append(cur[i])
            cur = nc
        return cur

    def ev_Constant(self, node, st, ctx):
        if isinstance(node.value, (int, float, str, bool, type(None))):
            return [(st, C(node.value))]
        return [(st, X(const(repr(node.value))))]

    def ev_Name(self, node, st, ctx):
        v = self.lookup_name(st, ctx, node.id, node)
        return [] if v is None else [(st, v)]

    def ev_Attribute(self, node, st, ctx):
        name = ctx.fi.cls.mangle(node.attr) if ctx.fi.cls is not None else node.attr
        out = []
        for s, v in self.ev(node.value, st, ctx):
            out.extend(self.get_attr(s, v, name, node))
        return out

    def ev_Tuple(self, node, st, ctx):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return [(st, X(opaque()))]
        return [(s, T(vs)) for s, vs in self.ev_many(node.elts, st, ctx)]

    def ev_List(self, node, st, ctx):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return [(st, X(opaque()))]
        return [(s, self.new_list(s, vs)) for s, vs in self.ev_many(node.elts, st, ctx)]

    def ev_Set(self, node, st, ctx):
        return [(s, self.new_list(s, vs, kind="set")) for s, vs in self.ev_many(node.elts, st, ctx)]

    def ev_Dict(self, node, st, ctx):
        if any(k is None for k in node.keys):
            return [(s, self.alloc(s, Dct({}, open=True))) for s, _ in
                    self.ev_many([v for v in node.values], st, ctx)]
        out = []
        for s, vs in self.ev_many(list(node.keys) + list(node.values), st, ctx):
            n = len(node.keys)
            d = {}
            op = False
            for k, v in zip(vs[:n], vs[n:]):
                k = self.conc(s, k)
                if isinstance(k, C):
                    d[k] = v
                else:
                    op = True
            out.append((s, self.alloc(s, Dct(d, open=op))))
        return out

    def ev_JoinedStr(self, node, st, ctx):
        parts = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.ev_many(parts, st, ctx):
            vs = [self.conc(s, v) for v in vs]
            if all(isinstance(v, C) for v in vs) and all(
                    not (isinstance(p, ast.FormattedValue) and p.format_spec) for p in node.values):
                it = iter(vs)
                txt = "".join(p.value if isinstance(p, ast.Constant) else str(next(it).v) for p in node.values)
                out.append((s, C(txt)))
            else:
                out.append((s, X(mk("call", "fstr", tuple(self.expr_of(s, v) for v in vs), ()), ty="str")))
        return out

    def ev_FormattedValue(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def ev_Lambda(self, node, st, ctx):
        fi = self.prog.by_node.get(node)
        if fi is None:
            fi = FuncInfo(node, ctx.fi.module, ctx.fi.cls, ctx.fi.qual + ".<lambda>", ctx.fi)
            self.prog.by_node[node] = fi
        return [(st, F(fi, ctx.fid))]

    def ev_IfExp(self, node, st, ctx):
        pre_numf, pre_assume = st.numf, dict(st.assume)
        tr, fl = [], []
        for s, b in self.cond(node.test, st, ctx):
            (tr if b else fl).append(s)
        tr, fl = self.limit(tr), self.limit(fl)
        tr = [x for s in tr for x in self.ev(node.body, s, ctx)]
        fl = [x for s in fl for x in self.ev(node.orelse, s, ctx)]
        if len(tr) == 1 and len(fl) == 1:
            r = self.try_ite(pre_numf, pre_assume, tr[0][0], tr[0][1], fl[0][0], fl[0][1], ctx.fid)
            if r is not None:
                return [r]
        return tr + fl

    def ev_BoolOp(self, node, st, ctx):
        # value semantics of and/or on plain booleans
        out = []
        isand = isinstance(node.op, ast.And)
        live = [st]
        for i, v in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in live:
                for s1, val in self.ev(v, s, ctx):
                    if last:
                        out.append((s1, val))
                        continue
                    for s2, b in self.truth(s1, val, v):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, val))
            live = nxt
        return out

    def ev_UnaryOp(self, node, st, ctx):
        out = []
        if isinstance(node.op, ast.Not):
            for s, b in self.cond_nofork(node.operand, st, ctx):
                out.append((s, b))
            return out
        for s, v in self.ev(node.operand, st, ctx):
            v = self.conc(s, v)
            op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]
            out.extend(models.unop(self, s, op, v, node))
        return out

    def cond_nofork(self, node, st, ctx):
        """`not x` as a value."""
        out = []
        for s, v in self.ev(node, st, ctx):
            v = self.conc(s, v)
            if isinstance(v, C):
                out.append((s, C(not v.v)))
            elif isinstance(v, (N, X)):
                n = ex.node(v.expr)
                if n[0] == "un" and n[1] == "not":
                    out.append((s, N(n[2], (), "bool")))
                else:
                    out.append((s, N(mk("un", "not", v.expr), (), "bool")))
            else:
                for s2, b in self.truth(s, v, node):
                    out.append((s2, C(not b)))
        return out

    def ev_BinOp(self, node, st, ctx):
        op = BINOPS[type(node.op)]
        out = []
        for s, (a, b) in self.ev_many([node.left, node.right], st, ctx):
            out.extend(self.binop(s, op, a, b, node))
        return out

    def binop(self, st, op, a, b, node):
        a, b = self.conc(st, a), self.conc(st, b)
        r = self.inst_binop(st, op, a, b, node)
        if r is not None:
            return r
        return models.binop(self, st, op, a, b, node)

    def inst_binop(self, st, op, a, b, node):
        d = DUNDER.get(op)
        if d is None:
            return None
        for x, y, nm in ((a, b, "__%s__" % d), (b, a, "__r%s__" % d)):
            if isinstance(x, R) and all(isinstance(st.heap[o], Inst) for o in x.oids):
                out = []
                ok = False
                for i, o in enumerate(x.oids[:4]):
                    h = st.heap[o]
                    if h.cls is None:
                        continue
                    m = h.cls.lookup(nm)
                    if isinstance(m, FuncInfo):
                        ok = True
                        s2 = st if len(x.oids) == 1 else st.fork()
                        out.extend(self.call(s2, F(m), [R((o,)), y], {}, node))
                if ok:
                    return out
        for x in (a, b):
            c = self.class_of(st, x)
            if c is not None and not c.has_ext_base():
                other = b if x is a else a
                oc = self.cats_of_val(st, other)
                if x is a and oc is not None and not (oc & frozenset(["unum", "ndarray", "masked"])) or \
                        (x is b and oc is not None and oc <= NUMCATS):
                    if (x is a and c.lookup("__%s__" % d) is None) or (x is b and c.lookup("__r%s__" % d) is None):
                        self.note("unsupported-operand", node, "%s objects do not support operator '%s' here"
                                  % (c.name, op), st)
                        self.raise_(st, "TypeError", node)
                        return []
        return None

    def ev_Compare(self, node, st, ctx):
        out = []
        if len(node.ops) == 1:
            for s, (a, b) in self.ev_many([node.left, node.comparators[0]], st, ctx):
                out.extend(self.compare(s, CMPOPS[type(node.ops[0])], a, b, node))
            return out
        # chained
        for s, vs in self.ev_many([node.left] + list(node.comparators), st, ctx):
            cur = [(s, True, None)]
            es = []
            ok = [(s, None)]
            vals = []
            states = [s]
            res = []
            for i, o in enumerate(node.ops):
                nxt = []
                for s1 in states:
                    for s2, v in self.compare(s1, CMPOPS[type(o)], vs[i], vs[i + 1], node):
                        v = self.conc(s2, v)
                        if isinstance(v, C) and not v.v:
                            res.append((s2, C(False)))
                        else:
                            es.append(self.expr_of(s2, v))
                            nxt.append(s2)
                states = nxt
            for s1 in states:
                res.append((s1, N(mk("call", "and", tuple(sorted(set(es))), ()), (), "bool")))
            out.extend(res)
        return out

    def compare(self, st, op, a, b, node):
        return models.compare(self, st, op, a, b, node)

    def ev_Subscript(self, node, st, ctx):
        out = []
        for s, base in self.ev(node.value, st, ctx):
            for s2, idx in self.ev_index(node.slice, s, ctx):
                out.extend(models.get_item(self, s2, base, idx, node))
        return out

    def ev_index(self, sl, st, ctx):
        """-> list of (st, tuple of index items): ('s', lo, hi, step) with Vals, ('v', Val)"""
        if isinstance(sl, ast.Index):      # python < 3.9 trees
            sl = sl.value
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, items in cur:
                if isinstance(e, ast.Slice):
                    parts = [x for x in (e.lower, e.upper, e.step) if x is not None]
                    for s2, vs in self.ev_many(parts, s, ctx):
                        it = iter(vs)
                        lo = next(it) if e.lower is not None else None
                        hi = next(it) if e.upper is not None else None
                        sp = next(it) if e.step is not None else None
                        nxt.append((s2, items + [("s", lo, hi, sp)]))
                elif isinstance(e, ast.Constant) and e.value is Ellipsis:
                    nxt.append((s, items + [("e",)]))
                elif isinstance(e, ast.Starred):
                    nxt.append((s, items + [("v", X(opaque()))]))
                else:
                    for s2, v in self.ev(e, s, ctx):
                        nxt.append((s2, items + [("v", v)]))
            cur = nxt
        return [(s, (tuple(items), isinstance(sl, ast.Tuple))) for s, items in cur]

    def ev_Starred(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def ev_NamedExpr(self, node, st, ctx):
        out = []
        for s, v in self.ev(node.value, st, ctx):
            s.setvar(ctx.fid, node.target.id, v)
            out.append((s, v))
        return out

    def ev_Yield(self, node, st, ctx):
        if node.value is None:
            ctx.yields.append((st, C(None)))
            return [(st, C(None))]
        out = []
        for s, v in self.ev(node.value, st, ctx):
            ctx.yields.append((s.fork(), v))
            out.append((s, C(None)))
        return out

    def ev_YieldFrom(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def ev_Call(self, node, st, ctx):
        out = []
        fnode = node.func
        # super()
        if isinstance(fnode, ast.Name) and fnode.id == "super" and "super" not in ctx.fi.locals:
            if not node.args:
                sn = ctx.fi.params[0] if ctx.fi.params else None
                rv = st.frames[ctx.fid].get(sn)
                return [(st, SU(ctx.fi.cls, rv))]
            for s, vs in self.ev_many(node.args, st, ctx):
                cl = self.conc(s, vs[0])
                out.append((s, SU(cl.ci if isinstance(cl, K) else ctx.fi.cls, vs[1] if len(vs) > 1 else None)))
            return out
        for s, fn in self.ev(fnode, st, ctx):
            out.extend(self.call_args(node, s, fn, ctx))
        return out

    def call_args(self, node, st, fn, ctx):
        out = []
        fnc = self.conc(st, fn)
        if isinstance(fnc, E) and fnc.name == "builtins.isinstance" and len(node.args) == 2:
            for s, (v, tv) in self.ev_many(node.args, st, ctx):
                for s2, b in self.isinstance_(s, v, tv, node):
                    out.append((s2, C(b)))
            return out
        pos = [a for a in node.args]
        parts = [a.value if isinstance(a, ast.Starred) else a for a in pos] + [k.value for k in node.keywords]
        for s, vs in self.ev_many(parts, st, ctx):
            args = []
            star_unknown = False
            for a, v in zip(pos, vs):
                if isinstance(a, ast.Starred):
                    v = self.conc(s, v)
                    if isinstance(v, T):
                        args.extend(v.items)
                    elif isinstance(v, R) and len(v.oids) == 1 and isinstance(s.heap[v.oids[0]], Lst) \
                            and s.heap[v.oids[0]].items is not None:
                        args.extend(s.heap[v.oids[0]].items)
                    else:
                        star_unknown = True
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(node.keywords, vs[len(pos):]):
                if k.arg is None:
                    v = self.conc(s, v)
                    if isinstance(v, R) and len(v.oids) == 1 and isinstance(s.heap[v.oids[0]], Dct):
                        d = s.heap[v.oids[0]]
                        for kk, vv in d.items.items():
                            if isinstance(kk.v, str):
                                kwargs[kk.v] = vv
                        if d.open:
                            kwargs["**"] = v
                    else:
                        kwargs["**"] = v
                else:
                    kwargs[k.arg] = v
            out.extend(self.call(s, fn, args, kwargs, node, star_unknown))
        return out

    # comprehensions ---------------------------------------------------
    def ev_ListComp(self, node, st, ctx):
        return self.comp(node, [node.elt], st, ctx, "list")

    def ev_SetComp(self, node, st, ctx):
        return self.comp(node, [node.elt], st, ctx, "set")

    def ev_GeneratorExp(self, node, st, ctx):
        return self.comp(node, [node.elt], st, ctx, "gen")

    def ev_DictComp(self, node, st, ctx):
        out = []
        for s, v in self.comp(node, [node.key, node.value], st, ctx, "list"):
            out.append((s, self.alloc(s, Dct({}, open=True))))
        return out

    def comp(self, node, elts, st, ctx, kind):
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.frames[ctx.fid].get(n) for n in names}
        out = []
        res = []
        self._comp_gen(node.generators, 0, elts, st, ctx, res, True)
        # res: list of (state, vals or None(skipped), literal?)
        if not res:
            return []
        literal = all(r[2] for r in res)
        final = {}
        if literal and len({id(r[0]) for r in res}) == 1:
            s = res[-1][0]
            items = [r[1][-1] for r in res if r[1] is not None]
            sts = [(s, self.new_list(s, items, kind=kind))]
        else:
            # join all states
            s = res[0][0]
            uniq = []
            for r in res:
                if not any(r[0] is u for u in uniq):
                    uniq.append(r[0])
            s = uniq[0]
            for u in uniq[1:]:
                s = self.join_states(s, u)
            el = None
            for r in res:
                if r[1] is None:
                    continue
                for o, h in r[0].heap.items():
                    if o not in s.heap:
                        s.heap[o] = h
                v = r[1][-1]
                el = v if el is None else self.join_val(s, el, s, v, s)
            lenx = None
            if len(node.generators) == 1 and not node.generators[0].ifs:
                lenx = res[0][3]
            sts = [(s, self.new_list(s, None, el if el is not None else X(opaque()), kind=kind, lenx=lenx))]
        for s, v in sts:
            fr = dict(s.frames[ctx.fid])
            for n in names:
                if saved[n] is None:
                    fr.pop(n, None)
                else:
                    fr[n] = saved[n]
            s.frames[ctx.fid] = fr
        return sts

    def _comp_gen(self, gens, i, elts, st, ctx, res, literal, lenx=None):
        if i == len(gens):
            for s, vs in self.ev_many(elts, st, ctx):
                res.append((s, vs, literal, lenx))
            return
        g = gens[i]
        for s, it in self.ev(g.iter, st, ctx):
            items, el, lx = models.iterate(self, s, it, g.iter)
            if items is not None and len(items) <= 8 and len(gens) == 1:
                if not items:
                    res.append((s, None, True, None))
                cur = [s]
                for v in items:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.assign(g.target, v, s1, ctx):
                            oks = [s2]
                            for c in g.ifs:
                                n2 = []
                                for s3 in oks:
                                    for s4, b in self.cond(c, s3, ctx):
                                        if b:
                                            n2.append(s4)
                                        else:
                                            res.append((s4, None, False, None))
                                            nxt.append(s4)
                                oks = n2
                            for s3 in oks:
                                for s4, vs in self.ev_many(elts, s3, ctx):
                                    res.append((s4, vs, literal and not g.ifs, None))
                                    nxt.append(s4)
                    cur = self.limit(nxt, 4)
                continue
            if items is not None:
                el = items[0] if items else X(opaque())
                for v in items[1:]:
                    el = self.join_val(s, el, s, v, s)
            for s2 in self.assign(g.target, el, s, ctx):
                oks = [s2]
                for c in g.ifs:
                    n2 = []
                    for s3 in oks:
                        for s4, b in self.cond(c, s3, ctx):
                            if b:
                                n2.append(s4)
                            else:
                                res.append((s4, None, False, None))
                    oks = n2
                for s3 in oks:
                    self._comp_gen(gens, i + 1, elts, s3, ctx, res, False, lx)

    # ------------------------------------------------------------------ assignment
    def assign(self, target, val, st, ctx):
        """-> list of states"""
        if isinstance(target, ast.Name):
            st.setvar(ctx.fid, target.id, val)
            if target.id in ctx.fi.globals_decl:
                self.write(st, "global:%s.%s" % (ctx.fi.module.name, target.id), target, "global variable")
            return [st]
        if isinstance(target, ast.Attribute):
            name = ctx.fi.cls.mangle(target.attr) if ctx.fi.cls is not None else target.attr
            out = []
            for s, o in self.ev(target.value, st, ctx):
                out.extend(self.set_attr(s, o, name, val, target))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, base in self.ev(target.value, st, ctx):
                for s2, idx in self.ev_index(target.slice, s, ctx):
                    r = models.set_item(self, s2, base, idx, val, target)
                    if r is not None and isinstance(r, Val) and isinstance(target.value, ast.Name):
                        s2.setvar(ctx.fid, target.value.id, r)
                        out.append(s2)
                    elif isinstance(r, list):
                        out.extend(r)
                    else:
                        out.append(s2)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = models.unpack(self, st, val, len(target.elts))
            cur = [st]
            for t, v in zip(target.elts, vals):
                nxt = []
                for s in cur:
                    nxt.extend(self.assign(t.value if isinstance(t, ast.Starred) else t, v, s, ctx))
                cur = nxt
            return cur
        if isinstance(target, ast.Starred):
            return self.assign(target.value, val, st, ctx)
        return [st]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, states, ctx):
        for s in stmts:
            nxt = []
            for st in states:
                nxt.extend(self.stmt(s, st, ctx))
            states = self.limit(nxt)
            if not states:
                break
        return states

    def stmt(self, node, st, ctx):
        self.tick()
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            return [st]
        return m(node, st, ctx)

    def st_Expr(self, node, st, ctx):
        if isinstance(node.value, ast.Constant):
            return [st]
        return [s for s, _ in self.ev(node.value, st, ctx)]

    def st_Pass(self, node, st, ctx):
        return [st]

    def st_Assign(self, node, st, ctx):
        out = []
        for s, v in self.ev(node.value, st, ctx):
            cur = [s]
            for t in node.targets:
                nxt = []
                for s1 in cur:
                    nxt.extend(self.assign(t, v, s1, ctx))
                cur = nxt
            out.extend(cur)
        return out

    def st_AnnAssign(self, node, st, ctx):
        if node.value is None:
            return [st]
        out = []
        for s, v in self.ev(node.value, st, ctx):
            out.extend(self.assign(node.target, v, s, ctx))
        return out

    def st_AugAssign(self, node, st, ctx):
        op = BINOPS[type(node.op)]
        tgt = node.target
        load = ast.copy_location(_as_load(tgt), tgt)
        out = []
        for s, a in self.ev(load, st, ctx):
            for s2, b in self.ev(node.value, s, ctx):
                for s3, v in models.inplace_op(self, s2, op, a, b, node):
                    out.extend(self.assign(tgt, v, s3, ctx))
        return out

    def st_Return(self, node, st, ctx):
        if node.value is None:
            ctx.returns.append((st, C(None)))
            return []
        for s, v in self.ev(node.value, st, ctx):
            ctx.returns.append((s, v))
        return []

    def st_Raise(self, node, st, ctx):
        name = None
        if node.exc is not None:
            e = node.exc
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(f, ast.Name):
                name = f.id
            elif isinstance(f, ast.Attribute):
                name = f.attr
            if isinstance(e, ast.Call):
                # evaluate the arguments (they may hold dangling names)
                for a in e.args:
                    r = self.ev(a, st, ctx)
                    if not r:
                        return []
                    st = r[0][0]
        self.raise_(st, name, node)
        return []

    def st_Assert(self, node, st, ctx):
        out = []
        for s, b in self.cond(node.test, st, ctx):
            if b:
                out.append(s)
            else:
                self.raise_(s, "AssertionError", node)
        return out

    def st_Delete(self, node, st, ctx):
        states = [st]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    fr = dict(s.frames[ctx.fid])
                    fr.pop(t.id, None)
                    s.frames[ctx.fid] = fr
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, base in self.ev(t.value, s, ctx):
                        for s3, idx in self.ev_index(t.slice, s2, ctx):
                            models.del_item(self, s3, base, idx, t)
                            nxt.append(s3)
                elif isinstance(t, ast.Attribute):
                    name = ctx.fi.cls.mangle(t.attr) if ctx.fi.cls is not None else t.attr
                    for s2, o in self.ev(t.value, s, ctx):
                        o = self.conc(s2, o)
                        if isinstance(o, R) and len(o.oids) == 1 and isinstance(s2.heap[o.oids[0]], Inst):
                            h = s2.heap[o.oids[0]]
                            if h.owner:
                                self.write(s2, h.owner + "." + name, t, "attribute " + name)
                            s2.heap[o.oids[0]] = h.without(name)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return states

    def st_Global(self, node, st, ctx):
        return [st]

    st_Nonlocal = st_Global

    def st_Import(self, node, st, ctx):
        for al in node.names:
            if al.asname:
                nm = al.name
                v = M(self.prog.modules[nm]) if nm in self.prog.modules else E(canon_ext(nm))
                st.setvar(ctx.fid, al.asname, v)
            else:
                nm = al.name.split(".")[0]
                v = M(self.prog.modules[nm]) if nm in self.prog.modules else E(canon_ext(nm))
                st.setvar(ctx.fid, nm, v)
        return [st]

    def st_ImportFrom(self, node, st, ctx):
        tgt = resolve_rel(ctx.fi.module, node.level, node.module)
        for al in node.names:
            if al.name == "*":
                continue
            b = ("from", tgt, al.name)
            r = self.prog.resolve_binding(ctx.fi.module, b)
            if r is None and tgt.split(".")[0] == "IMTreatment":
                self.note("bad-import", node, "cannot import name '%s' from '%s'" % (al.name, tgt), st)
                self.raise_(st, "ImportError", node)
                return []
            st.setvar(ctx.fid, al.asname or al.name, self.from_static(r, (tgt, al.name)))
        return [st]

    def st_FunctionDef(self, node, st, ctx):
        fi = self.prog.by_node.get(node)
        if fi is None:
            fi = FuncInfo(node, ctx.fi.module, ctx.fi.cls, ctx.fi.qual + "." + node.name, ctx.fi)
            fi.decorated = bool(node.decorator_list)
            self.prog.by_node[node] = fi
        st.setvar(ctx.fid, node.name, F(fi, ctx.fid))
        return [st]

    def st_ClassDef(self, node, st, ctx):
        st.setvar(ctx.fid, node.name, X(opaque(tag="localclass")))
        return [st]

    def st_If(self, node, st, ctx):
        pre_numf, pre_assume = st.numf, dict(st.assume)
        out = []
        tr, fl = [], []
        for s, b in self.cond(node.test, st, ctx):
            (tr if b else fl).append(s)
        tr, fl = self.limit(tr), self.limit(fl)
        gated = len(tr) == 1 and len(fl) == 1
        if tr:
            tr = self.block(node.body, tr, ctx)
        if fl:
            fl = self.block(node.orelse, fl, ctx) if node.orelse else fl
        if gated and len(tr) == 1 and len(fl) == 1:
            r = self.try_ite(pre_numf, pre_assume, tr[0], None, fl[0], None, ctx.fid)
            if r is not None:
                return [r[0]]
        return tr + fl

    def loop_body(self, node, states, ctx):
        brk, cont = [], []
        ctx.loops.append((brk, cont))
        try:
            out = self.block(node.body, states, ctx)
        finally:
            ctx.loops.pop()
        return out + cont, brk

    def st_Break(self, node, st, ctx):
        if ctx.loops:
            ctx.loops[-1][0].append(st)
        return []

    def st_Continue(self, node, st, ctx):
        if ctx.loops:
            ctx.loops[-1][1].append(st)
        return []

    def squash(self, states, n=1):
        while len(states) > n:
            states = [self.join_states(states[i], states[i + 1]) if i + 1 < len(states) else states[i]
                      for i in range(0, len(states), 2)]
        return states

    def st_For(self, node, st, ctx):
        exits = []
        breaks = []
        for s, it in self.ev(node.iter, st, ctx):
            items, el, lx = models.iterate(self, s, it, node.iter)
            if items is not None and len(items) <= 6:
                cur = [s]
                for v in items:
                    nxt = []
                    for s1 in cur:
                        nxt.extend(self.assign(node.target, v, s1, ctx))
                    cur, b = self.loop_body(node, self.limit(nxt, 6), ctx)
                    breaks.extend(b)
                    cur = self.limit(cur, 6)
                    if not cur:
                        break
                exits.extend(cur)
                continue
            if items is not None:
                el = items[0]
                for v in items[1:]:
                    el = self.join_val(s, el, s, v, s)
            sure = models.surely_nonempty(self, s, it, lx)
            s0 = None if sure else s.fork()
            # round 1
            cur = self.assign(node.target, el, s, ctx)
            out1, b1 = self.loop_body(node, cur, ctx)
            breaks.extend(b1)
            out1 = self.limit(out1, 4)
            fin = []
            for o1 in out1:
                keep = o1.fork()
                cur = self.assign(node.target, el, o1, ctx)
                out2, b2 = self.loop_body(node, cur, ctx)
                breaks.extend(b2)
                if out2:
                    fin.append(self.widen(keep, self.squash(out2)[0]))
                else:
                    fin.append(keep)
            if s0 is not None:
                s0.numf += 1
                # zero iterations: join into the result, unless there is none
                exits.extend(self.squash(fin, 3) + [s0])
            else:
                exits.extend(self.squash(fin, 3))
        if node.orelse:
            exits = self.block(node.orelse, exits, ctx)
        return exits + self.limit(breaks, 6)

    def widen(self, a, b):
        return self.join_states(a, b)

    def st_While(self, node, st, ctx):
        exits, breaks = [], []
        const_true = isinstance(node.test, ast.Constant) and bool(node.test.value)
        cur = [st]
        for rnd in range(2):
            tr = []
            for s in cur:
                for s2, b in self.cond(node.test, s, ctx):
                    if b:
                        tr.append(s2)
                    else:
                        exits.append(s2)
            tr = self.limit(tr, 4)
            if not tr:
                cur = []
                break
            # forget the loop condition and everything assumed from values changed in the body
            out, bk = self.loop_body(node, tr, ctx)
            breaks.extend(bk)
            for s in out:
                s.assume = {}
            cur = self.limit(out, 4)
        if cur and not const_true:
            exits.extend(self.squash(cur, 2))
        if node.orelse:
            exits = self.block(node.orelse, exits, ctx)
        return self.limit(exits, 6) + self.limit(breaks, 6)

    def st_With(self, node, st, ctx):
        states = [st]
        for it in node.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(it.context_expr, s, ctx):
                    v = self.conc(s2, v)
                    c = self.class_of(s2, v)
                    if c is not None and isinstance(c.lookup("__enter__"), FuncInfo):
                        for s3, ev_ in self.call(s2, B(F(c.lookup("__enter__")), v), [], {}, node):
                            if it.optional_vars is not None:
                                nxt.extend(self.assign(it.optional_vars, ev_, s3, ctx))
                            else:
                                nxt.append(s3)
                    elif it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v if isinstance(v, X) else X(opaque()), s2, ctx))
                    else:
                        nxt.append(s2)
            states = nxt
        return self.block(node.body, states, ctx)

    def st_Try(self, node, st, ctx):
        pre = st.fork()
        nret = len(ctx.returns)
        self.rsinks.append([])
        self.guards.append(node.handlers)
        try:
            body_out = self.block(node.body, [st], ctx)
        finally:
            sink = self.rsinks.pop()
            self.guards.pop()
        outs = []
        unhandled = []
        hstates = {i: [] for i in range(len(node.handlers))}
        tryleaf = None
        for s, e, n in sink:
            done = False
            for i, h in enumerate(node.handlers):
                mt = self.handler_matches(h, e)
                if mt:
                    hstates[i].append(s)
                    done = True
                    break
            if not done:
                unhandled.append((s, e, n))
        implicit = any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Import, ast.ImportFrom,
                                      ast.AugAssign, ast.Name))
                       for b in node.body for x in ast.walk(b))
        for i, h in enumerate(node.handlers):
            ss = hstates[i]
            if implicit and self.implicit_possible(h):
                # one outcome per try statement and path: a body that raised once raises again
                leaf_ = mk("opq", ("try", ctx.fi.qual if ctx.fi else "", node.lineno, i), frozenset())
                if pre.assume.get(leaf_) is not False:
                    p2 = pre.fork()
                    if leaf_ not in p2.assume:
                        p2.numf += 1
                        p2.assume[leaf_] = True
                    p2.trail += ("exception in try",)
                    ss = ss + [p2]
                    tryleaf = leaf_
            if ss:
                for s in ss:
                    if h.name:
                        s.setvar(ctx.fid, h.name, X(opaque(tag="exc")))
                outs.extend(self.block(h.body, self.limit(ss), ctx))
        if node.orelse:
            body_out = self.block(node.orelse, body_out, ctx)
        if tryleaf is not None and len(node.handlers) == 1:
            if pre.assume.get(tryleaf) is True:
                body_out = [] if outs else body_out
            else:
                for s in body_out:
                    if tryleaf not in s.assume:
                        s.assume[tryleaf] = False
                if len(body_out) == 1 and len(outs) == 1 and len(ctx.returns) == nret:
                    r = self.try_ite(pre.numf, pre.assume, outs[0], None, body_out[0], None, ctx.fid)
                    if r is not None:
                        body_out, outs = [r[0]], []
        outs = body_out + outs
        if node.finalbody:
            outs = self.block(node.finalbody, outs, ctx)
            newrets = ctx.returns[nret:]
            del ctx.returns[nret:]
            for s, v in newrets:
                for s2 in self.block(node.finalbody, [s], ctx):
                    ctx.returns.append((s2, v))
            for s, e, n in unhandled:
                for s2 in self.block(node.finalbody, [s], ctx):
                    self.rsinks[-1].append((s2, e, n))
        else:
            self.rsinks[-1].extend(unhandled)
        return self.limit(outs)

    @staticmethod
    def handler_names(h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        r = []
        for t in ts:
            if isinstance(t, ast.Name):
                r.append(t.id)
            elif isinstance(t, ast.Attribute):
                r.append(t.attr)
            elif isinstance(t, ast.Call):
                pass
        return r

    def handler_matches(self, h, exc):
        names = self.handler_names(h)
        if names is None or "Exception" in names or "BaseException" in names:
            return True
        if exc is None:
            return True
        if exc in names:
            return True
        par = {"IndexError": "LookupError", "KeyError": "LookupError", "UnboundLocalError": "NameError",
               "ModuleNotFoundError": "ImportError", "FileNotFoundError": "OSError",
               "FileExistsError": "OSError", "IOError": "OSError"}
        return par.get(exc) in names or (exc in ("IOError", "OSError") and ("IOError" in names or "OSError" in names))

    @staticmethod
    def implicit_possible(h):
        return True


def _as_load(t):
    import copy as _c
    n = _c.copy(t)
    n.ctx = ast.Load()
    return n


ALIASES = {"np": "numpy"}


def canon_ext(name):
    if name.startswith("numpy.core."):
        name = "numpy." + name.split(".")[-1]
    if name == "unum.core.Unum":
        name = "unum.Unum"
    return name
