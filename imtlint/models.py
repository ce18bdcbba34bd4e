"""Models of Python's built-in operations, numpy, unum and the few library calls the analysis has to understand.
Everything that is not modelled returns an unknown fresh value that depends on its arguments."""
import ast
from fractions import Fraction
from . import expr as ex
from .expr import mk, const, leaf, phi, opaque, mmul, mdiv, mpow, norm_atom, ANY
from .values import *

LIT = "lit"


# ---------------------------------------------------------------------------- helpers
def single(st, v, cls):
    if isinstance(v, R) and len(v.oids) == 1 and isinstance(st.heap[v.oids[0]], cls):
        return st.heap[v.oids[0]]
    return None


def all_of(st, v, cls):
    return isinstance(v, R) and v.oids and all(isinstance(st.heap[o], cls) for o in v.oids)


def is_num_c(v):
    return isinstance(v, C) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool)


def ndim_of(st, v):
    if all_of(st, v, Arr):
        ds = {st.heap[o].ndim for o in v.oids}
        return ds.pop() if len(ds) == 1 else None
    if isinstance(v, (N, U)) or is_num_c(v):
        return 0 if not (isinstance(v, U) and v.arr) else None
    h = single(st, v, Lst)
    if h is not None:
        el = h.elem if h.items is None else (h.items[0] if h.items else None)
        if el is not None:
            d = ndim_of(st, el)
            return None if d is None else d + 1
    if isinstance(v, T) and v.items:
        d = ndim_of(st, v.items[0])
        return None if d is None else d + 1
    return None


def shape_desc(eng, st, items):
    """Index items -> (desc, basic?, n of ints)"""
    desc = []
    basic = True
    for it in items:
        if it[0] == "s":
            desc.append(("s",) + tuple(None if x is None or (isinstance(eng.conc(st, x), C) and eng.conc(st, x).v is None)
                                       else eng.expr_of(st, x) for x in it[1:]))
        elif it[0] == "e":
            desc.append(("e",))
        else:
            v = eng.conc(st, it[1])
            if isinstance(v, XM) and v.name == "@slice":
                ps = [eng.conc(st, x) for x in v.recv.items]
                desc.append(("s",) + tuple(None if isinstance(x, C) and x.v is None else eng.expr_of(st, x)
                                           for x in ps))
            elif isinstance(v, C) and v.v is None:
                desc.append(("n",))
            elif isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool):
                desc.append(("i", const(v.v)))
            elif isinstance(v, N) and v.ty != "bool":
                desc.append(("i", v.expr))
            elif isinstance(v, E) and v.name == "numpy.newaxis":
                desc.append(("n",))
            else:
                basic = False
                desc.append(("a", eng.expr_of(st, v)))
    return tuple(desc), basic


def full_slice(d):
    return d[0] == "s" and d[1] is None and d[2] is None and d[3] is None


def mk_idx(be, desc):
    if desc and all(full_slice(d) for d in desc):
        return be
    n = ex.node(be)
    if n[0] == "store" and n[2] == desc and all(d[0] in ("i", "s") for d in desc):
        vn = ex.node(n[3])
        if vn[0] == "const" or all(d[0] == "i" for d in desc):
            return n[3]
    if n[0] == "tup" and len(desc) == 1 and desc[0][0] == "i" and ex.is_const(desc[0][1]):
        i = ex.const_val(desc[0][1])
        if isinstance(i, int) and -(len(n) - 1) <= i < len(n) - 1:
            return n[1 + (i % (len(n) - 1))]
    return mk("idx", be, desc)


def implies(m, neg, atom):
    """Boolean array m (negated if neg) is True only where atom (an expression id; None: some isnan(...)) is
    True."""
    if m == atom and not neg:
        return True
    n = ex.node(m)
    if atom is None and not neg and n[0] == "call" and n[1] == "numpy.isnan":
        return True
    if n[0] == "un" and n[1] in ("~", "not"):
        return implies(n[2], not neg, atom)
    if n[0] == "call" and n[1] == "numpy.logical_not":
        return implies(n[2][0], not neg, atom)
    pair = None
    if n[0] == "call" and n[1] in ("numpy.logical_or", "numpy.logical_and") and len(n[2]) == 2:
        pair = (n[2][0], n[2][1], n[1].endswith("_and"))
    elif n[0] == "bin" and n[1] in ("|", "&"):
        pair = (n[2], n[3], n[1] == "&")
    if pair is not None:
        a, b, conj = pair
        if conj != neg:
            return implies(a, neg, atom) or implies(b, neg, atom)
        return implies(a, neg, atom) and implies(b, neg, atom)
    return False


def is_nan(e):
    n = ex.node(e)
    return (n[0] == "ext" and n[1] in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan")) or (n[0] == "const" and isinstance(n[2], float) and n[2] != n[2])


def strip_store(be, desc, depth=0):
    """be without what earlier stores put at desc."""
    n = ex.node(be)
    if depth > 8:
        return be
    if n[0] == "store" and n[2] == desc:
        return strip_store(n[1], desc, depth + 1)
    if n[0] == "call" and n[1] == "ite":
        a, b = strip_store(n[2][1], desc, depth + 1), strip_store(n[2][2], desc, depth + 1)
        if a == n[2][1] and b == n[2][2]:
            return be
        return mk_ite(n[2][0], a, b)
    if n[0] == "phi":
        return phi([strip_store(x, desc, depth + 1) for x in n[1:]])
    return be


def mk_store(be, desc, val):
    if desc and all(full_slice(d) for d in desc):
        vn = ex.node(val)
        if vn[0] != "const":
            return val
    if len(desc) == 1 and desc[0][0] == "a" and is_nan(val) and \
            implies(desc[0][1], False, mk("call", "numpy.isnan", (be,), ())):
        return be
    if val == mk_idx(be, desc):
        return be
    be = strip_store(be, desc)
    return mk("store", be, desc, val)


def mk_ite(cond, a, b):
    if a == b:
        return a
    neg = False
    n = ex.node(cond)
    while n[0] == "un" and n[1] == "not":
        cond, neg = n[2], not neg
        n = ex.node(cond)
    if neg:
        a, b = b, a
    # ite(any(M), store(E, M, v), E) == store(E, M, v)
    na = ex.node(a)
    if na[0] == "store" and na[1] == b and len(na[2]) == 1 and na[2][0][0] == "a" and n[0] == "call" and \
            n[1] in ("numpy.any", "any") and n[2][:1] == (na[2][0][1],) and len(n[2]) == 1:
        return a
    return mk("call", "ite", (cond, a, b), ())


SELF_INV = ("T", "flipud", "fliplr", "conj")


def mk_view(opname, params, be):
    n = ex.node(be)
    if opname in SELF_INV and n[0] == "view" and n[1] == opname and n[2] == params:
        return n[3]
    if opname == "real" and n[0] == "view" and n[1] == "real":
        return be
    return mk("view", opname, tuple(params), be)


def unview(opname, params, newexpr, be):
    if opname in SELF_INV:
        return mk_view(opname, params, newexpr)
    if opname in ("ravel", "real"):
        return mk("call", "un" + opname, (be, newexpr), ())
    return mk("call", "unview:" + opname, (be, newexpr), ())


# ---------------------------------------------------------------------------- tags
def norm_lit(t):
    return () if t == LIT else t


def tag_mul(a, b, sign=1):
    a, b = norm_lit(a), norm_lit(b)
    if a == ANY or b == ANY:
        return ANY
    return mmul(a, b, sign)


def red(t):
    return ex.reduce_mono(t) if t not in (None, ANY, LIT) else t


def tags_conflict(a, b):
    if a in (None, ANY, LIT) or b in (None, ANY, LIT):
        return False
    return red(a) != red(b)


def tag_join_add(eng, st, a, b, node, what, ea=None, eb=None):
    """tag of a + b"""
    if a in (ANY, LIT) and b in (ANY, LIT):
        return LIT if LIT in (a, b) else ANY
    if a in (ANY, LIT):
        return b
    if b in (ANY, LIT):
        return a
    if a is None:
        return b
    if b is None:
        return a
    if tags_conflict(a, b):
        eng.event(st, "unit-mix", node, what=what, a=red(a), b=red(b))
    return a


# ---------------------------------------------------------------------------- attributes of data values
ARR_METHODS = set("""copy astype flatten ravel reshape transpose sum mean min max std var any all argmin argmax argsort sort
fill tolist nonzero cumsum round clip dot squeeze swapaxes repeat take put item itemset tofile filled compressed conj
conjugate prod ptp view searchsorted diagonal trace resize partition append extend insert remove pop reverse clear index
count keys values items get update setdefault popitem format split strip lower upper startswith endswith replace join
lstrip rstrip find rfind zfill ljust rjust encode decode isdigit splitlines asNumber asUnit strUnit matchUnits
add discard union __getattribute__ __setattr__ __init__ __iter__ __eq__ __add__ __getitem__ group groups match search
findall sub fset fget __class__ __neg__ __mul__ __len__ __contains__ title capitalize""".split())


def data_attr(eng, st, v, name, node):
    v = eng.conc(st, v)
    if isinstance(v, R) and all_of(st, v, Arr):
        if len(v.oids) == 1:
            o = v.oids[0]
            h = st.heap[o]
            e = eng.arr_expr(st, o)
            if name == "shape":
                if h.ndim:
                    return [(st, T([N(mk("call", "shape", (e, const(i)), ()), (), "int") for i in range(h.ndim)]))]
                return [(st, X(mk("call", "shape", (e,), ())))]
            if name == "T":
                return [(st, eng.make_view(st, o, ("view", "T", ()), ndim=h.ndim))]
            if name == "real":
                return [(st, eng.make_view(st, o, ("view", "real", ()), ndim=h.ndim))]
            if name == "imag":
                return [(st, eng.new_arr(st, mk("call", "numpy.imag", (e,), ()), h.tag, ndim=h.ndim))]
            if name in ("size", "ndim", "nbytes", "itemsize"):
                if name == "ndim" and h.ndim is not None:
                    return [(st, C(h.ndim))]
                return [(st, N(mk("attr", name, e), (), "int"))]
            if name == "data":
                r = eng.make_view(st, o, ("same",), ndim=h.ndim)
                return [(st, r)]
            if name == "mask":
                if h.ma is not None:
                    return [(st, eng.new_arr(st, h.ma, (), ty="bool", ndim=h.ndim))]
                return [(st, eng.new_arr(st, mk("attr", "mask", e), (), ty="bool", ndim=h.ndim))]
            if name in ("dtype", "strides", "flags", "fill_value"):
                return [(st, X(mk("attr", name, e)))]
            if name == "flat":
                return [(st, eng.make_view(st, o, ("view", "ravel", ()), ndim=1))]
        return [(st, XM(v, name))]
    if isinstance(v, R):
        return [(st, XM(v, name))]
    if isinstance(v, (U, C, T)):
        if isinstance(v, C) and v.v is None and name not in ("__class__", "__doc__"):
            eng.raise_(st, "AttributeError", node)
            return []
        return [(st, XM(v, name))]
    if isinstance(v, N):
        if name in ("real",):
            return [(st, v)]
        if name in ("shape",):
            return [(st, T([]))]
        return [(st, XM(v, name))]
    if isinstance(v, X):
        if name in ARR_METHODS:
            return [(st, XM(v, name))]
        return [(st, X(mk("attr", name, v.expr), v.refs))]
    return [(st, XM(v, name))]


def arr_set_attr(eng, st, oid, name, val, node):
    h = st.heap[oid]
    if name == "mask":
        own = eng.owner_of(st, oid)
        if own is not None:
            eng.write(st, own, node, "mask of masked array")
        st.heap[oid] = h.rep(ma=eng.expr_of(st, val))
    elif name in ("shape", "real", "imag", "data"):
        eng.set_arr(st, oid, mk("call", "set_" + name, (eng.arr_expr(st, oid), eng.expr_of(st, val)), ()), node=node)


# ---------------------------------------------------------------------------- copies
def deep(eng, st, v, memo=None, depth=0):
    memo = {} if memo is None else memo
    v = eng.conc(st, v)
    if isinstance(v, R):
        return R(tuple(deep_oid(eng, st, o, memo, depth) for o in v.oids))
    if isinstance(v, T):
        return T([deep(eng, st, x, memo, depth + 1) for x in v.items])
    if isinstance(v, X):
        return X(v.expr, (), v.ty)
    if isinstance(v, S):
        t = st.types.get(v.key)
        if t is not None and t <= frozenset(["str", "int", "float", "bool", "none", "complex", "unum"]):
            return v
        if v.key in st.binds or st.neq.get(v.key):
            return v
        return X(leaf(v.key))
    return v


def deep_oid(eng, st, o, memo, depth):
    if o in memo:
        return memo[o]
    n = eng.new_oid()
    memo[o] = n
    h = st.heap[o]
    if isinstance(h, Arr):
        st.heap[n] = Arr(eng.arr_expr(st, o), h.tag, None, None, h.ma, h.ty, h.ndim, h.kind)
    elif isinstance(h, Inst):
        st.heap[n] = Inst(h.cls, {}, None, h.lazy)
        if depth < 8:
            at = {k: deep(eng, st, x, memo, depth + 1) for k, x in h.attrs.items()}
        else:
            at = {}
        st.heap[n] = Inst(h.cls, at, None, h.lazy)
    elif isinstance(h, Lst):
        it = None if h.items is None else tuple(deep(eng, st, x, memo, depth + 1) for x in h.items)
        el = None if h.elem is None else deep(eng, st, h.elem, memo, depth + 1)
        st.heap[n] = h.rep(items=it, elem=el, owner=None)
    elif isinstance(h, Dct):
        st.heap[n] = h.rep(items={k: deep(eng, st, x, memo, depth + 1) for k, x in h.items.items()}, owner=None)
    return n


def shallow(eng, st, v):
    v = eng.conc(st, v)
    if isinstance(v, R) and len(v.oids) == 1:
        o = v.oids[0]
        h = st.heap[o]
        if isinstance(h, Inst):
            if h.lazy and h.cls is not None:
                for a in eng.schema.attr.get(h.cls.qual, {}):
                    if a not in st.heap[o].attrs:
                        eng.materialise_attr(st, o, a)
            h = st.heap[o]
            return eng.alloc(st, Inst(h.cls, dict(h.attrs), None, h.lazy))
        if isinstance(h, Arr):
            return copy_arr(eng, st, v)
        if isinstance(h, Lst):
            return eng.alloc(st, h.rep(owner=None))
        if isinstance(h, Dct):
            return eng.alloc(st, h.rep(owner=None))
    if isinstance(v, X):
        return X(v.expr, (), v.ty)
    return v


def copy_arr(eng, st, v, **kw):
    """Fresh array with the content of v (an R of arrays)."""
    es = phi([eng.arr_expr(st, o) for o in v.oids])
    h = st.heap[v.oids[0]]
    d = dict(ndim=ndim_of(st, v), ty=h.ty, ma=h.ma)
    d.update(kw)
    return eng.new_arr(st, es, eng.tag_of(st, v), **d)


# ---------------------------------------------------------------------------- operands
def num_like(eng, st, v):
    """(expr, tag, kind) with kind in 'num','arr','lst','x' or None when v is not numeric"""
    if isinstance(v, C):
        if isinstance(v.v, (int, float)):
            return eng.expr_of(st, v), eng.tag_of(st, v) if not isinstance(v.v, bool) else (), "num"
        return None
    if isinstance(v, N):
        return v.expr, v.tag, "num"
    if isinstance(v, R):
        if all_of(st, v, Arr):
            return eng.expr_of(st, v), eng.tag_of(st, v), "arr"
        if all_of(st, v, (Arr, Lst)):
            return eng.expr_of(st, v), eng.tag_of(st, v), "lst"
        return None
    if isinstance(v, T):
        return eng.expr_of(st, v), eng.tag_of(st, v), "lst"
    if isinstance(v, X):
        return v.expr, None, "x"
    if isinstance(v, S):
        return leaf(v.key), None, "x"
    return None


def unop(eng, st, op, v, node):
    if isinstance(v, C) and isinstance(v.v, (int, float)):
        try:
            return [(st, C({"-": lambda x: -x, "+": lambda x: +x, "~": lambda x: ~x}[op](v.v)))]
        except Exception:
            pass
    c = eng.class_of(st, v)
    if c is not None:
        nm = {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op]
        m = c.lookup(nm)
        if m is not None:
            from .prog import FuncInfo
            if isinstance(m, FuncInfo):
                return eng.call(st, F(m), [v], {}, node)
        elif not c.has_ext_base():
            eng.note("unsupported-operand", node, "%s objects do not support unary '%s'" % (c.name, op), st)
            eng.raise_(st, "TypeError", node)
            return []
    if isinstance(v, N):
        return [(st, N(mk("un", op, v.expr), v.tag, v.ty))]
    if isinstance(v, U):
        return [(st, U(v.mon, v.tn, v.disp, mk("un", op, eng.expr_of(st, v)), v.arr))]
    if all_of(st, v, Arr):
        h = st.heap[v.oids[0]]
        return [(st, eng.new_arr(st, mk("un", op, eng.expr_of(st, v)), eng.tag_of(st, v), ndim=ndim_of(st, v),
                                 ty=h.ty, ma=h.ma))]
    return [(st, X(mk("un", op, eng.expr_of(st, v))))]


COMM = ("+", "*", "&", "|", "^")


def fold(op, a, b):
    try:
        return C({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                  "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b}[op]())
    except Exception:
        return None


def mkbin(op, ea, eb):
    if op in COMM and eb < ea:
        ea, eb = eb, ea
    na, nb = ex.node(ea), ex.node(eb)
    if op == "*":
        for x, y, n in ((ea, eb, na), (eb, ea, nb)):
            if n[0] == "const" and n[2] == 1 and n[1] in ("int", "float"):
                return y
    if op == "/" and nb[0] == "const" and nb[2] == 1 and nb[1] in ("int", "float"):
        return ea
    if op in ("+", "-") and nb[0] == "const" and nb[1] in ("int", "float") and nb[2] == 0:
        return ea
    if op == "+" and na[0] == "const" and na[1] in ("int", "float") and na[2] == 0:
        return eb
    return mk("bin", op, ea, eb)


def binop(eng, st, op, a, b, node):
    a, b = eng.conc(st, a), eng.conc(st, b)
    # constants
    if isinstance(a, C) and isinstance(b, C):
        r = fold(op, a.v, b.v)
        if r is not None and isinstance(r.v, (int, float, str, bool)):
            return [(st, r)]
        if isinstance(a.v, str) and op == "%":
            return [(st, X(mk("call", "fmt", (const(a.v), const(b.v)), ()), ty="str"))]
    # None operands
    for x in (a, b):
        if isinstance(x, C) and x.v is None:
            eng.raise_(st, "TypeError", node)
            return []
    # strings
    if isinstance(a, C) and isinstance(a.v, str) and op in ("%", "+", "*") or \
            isinstance(a, X) and a.ty == "str" or isinstance(b, C) and isinstance(b.v, str) or \
            isinstance(a, S) and st.types.get(a.key) == frozenset(["str"]):
        return [(st, X(mk("bin", op, eng.expr_of(st, a), eng.expr_of(st, b)), ty="str"))]
    # unum
    if isinstance(a, U) or isinstance(b, U):
        return unum_bin(eng, st, op, a, b, node)
    if isinstance(a, X) and a.ty == "unum" or isinstance(b, X) and b.ty == "unum":
        return [(st, X(mk("bin", op, eng.expr_of(st, a), eng.expr_of(st, b)), ty="unum"))]
    # list concatenation / repetition
    if op == "+" and seq_like(st, a) and seq_like(st, b):
        return [(st, concat_lists(eng, st, a, b))]
    if op == "*":
        for x, y in ((a, b), (b, a)):
            h = single(st, x, Lst)
            if h is not None and h.kind == "list" and not all_of(st, y, Arr):
                if isinstance(y, C) and isinstance(y.v, int) and h.items is not None and len(h.items) * y.v <= 12:
                    return [(st, eng.new_list(st, h.items * y.v))]
                el = h.elem
                if h.items:
                    el = h.items[0]
                    for z in h.items[1:]:
                        el = eng.join_val(st, el, st, z, st)
                return [(st, eng.new_list(st, None, el, lenx=eng.expr_of(st, y) if h.items and len(h.items) == 1
                                          else None))]
            if isinstance(x, T) and isinstance(y, C) and isinstance(y.v, int) and len(x.items) * y.v <= 12:
                return [(st, T(x.items * y.v))]
    na, nb = num_like(eng, st, a), num_like(eng, st, b)
    if na is None or nb is None:
        return [(st, X(mk("bin", op, eng.expr_of(st, a), eng.expr_of(st, b))))]
    ea, ta, ka = na
    eb, tb, kb = nb
    e = mkbin(op, ea, eb)
    if op in ("+", "-"):
        t = tag_join_add(eng, st, ta, tb, node, op)
    elif op == "*":
        t = tag_mul(ta, tb)
    elif op in ("/", "//"):
        t = tag_mul(ta, tb, -1)
    elif op == "%":
        t = ta
    elif op == "**":
        if isinstance(b, C) and is_num_c(b):
            t = mpow(norm_lit(ta), b.v)
        elif ta in ((), LIT):
            t = ()
        elif ta not in (None, ANY) and kb in ("num", "x"):
            t = mpow(ta, ex.lin_key(eb))
            nb = ex.node(eb)
            if len(ta) == 1 and isinstance(ta[0][0], tuple) and ta[0][0][0] == "pow" and ta[0][1] == 1 and \
                    nb[0] == "bin" and nb[1] == "/" and ex.is_const(nb[2]) and ex.const_val(nb[2]) == 1 and \
                    ex.lin_key(nb[3]) == ta[0][0][2]:
                t = ta[0][0][1]         # (a**n)**(1/n)
        else:
            t = None
    else:
        t = ()
    if ka == "arr" or kb == "arr" or ka == "lst" or kb == "lst":
        da, db = ndim_of(st, a), ndim_of(st, b)
        nd = max(da, db) if da is not None and db is not None else (da if db is None and da else db)
        mas = [st.heap[o].ma for v in (a, b) if all_of(st, v, Arr) for o in v.oids if st.heap[o].ma is not None]
        ma = None
        if mas:
            ma = mas[0]
            for m in mas[1:]:
                ma = mk("call", "numpy.logical_or", (ma, m), ())
        tys = [st.heap[o].ty for v in (a, b) if all_of(st, v, Arr) for o in v.oids]
        ty = "bool" if op in ("&", "|", "^") and tys and all(x == "bool" for x in tys) else "num"
        return [(st, eng.new_arr(st, e, t, ndim=nd, ma=ma, ty=ty))]
    if ka == "x" or kb == "x":
        return [(st, X(e))]
    ty = "int" if op in ("+", "-", "*", "//", "%") and all(
        (isinstance(x, N) and x.ty == "int") or (isinstance(x, C) and isinstance(x.v, int)) for x in (a, b)) else "num"
    if op in ("&", "|", "^"):
        ty = "bool"
    return [(st, N(e, t, ty))]


def seq_like(st, v):
    return isinstance(v, T) or (all_of(st, v, Lst) and all(st.heap[o].kind in ("list", "gen", "tuple")
                                                            for o in v.oids))


def concat_lists(eng, st, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return T(a.items + b.items)
    its = []
    el = None
    exact = True
    for v in (a, b):
        if isinstance(v, T):
            its.extend(v.items)
        elif len(v.oids) == 1 and st.heap[v.oids[0]].items is not None:
            its.extend(st.heap[v.oids[0]].items)
        else:
            exact = False
            for o in v.oids:
                h = st.heap[o]
                for x in list(h.items or ()) + ([h.elem] if h.elem is not None else []):
                    el = x if el is None else eng.join_val(st, el, st, x, st)
    if exact:
        return eng.new_list(st, its)
    for x in its:
        el = x if el is None else eng.join_val(st, el, st, x, st)
    return eng.new_list(st, None, el)


def unum_bin(eng, st, op, a, b, node):
    e = mkbin(op, eng.expr_of(st, a), eng.expr_of(st, b))
    # array of objects times unit etc.
    def parts(v):
        if isinstance(v, U):
            return v.mon, v.tn, v.arr, v.disp
        n = num_like(eng, st, v)
        if n is None:
            return None
        return (), norm_lit(n[1]), n[2] in ("arr", "lst"), None
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return [(st, X(e, ty="unum"))]
    arr = pa[2] or pb[2]

    def tmul(x, y, s=1):
        if x == ANY or y == ANY:
            return ANY
        return mmul(x, y, s)
    if op == "*":
        disp = None
        if isinstance(a, U) != isinstance(b, U):
            disp = pa[3] if isinstance(a, U) else pb[3]
        return [(st, U(mmul(pa[0], pb[0]), tmul(pa[1], pb[1]), disp, e, arr))]
    if op in ("/", "//"):
        disp = pa[3] if isinstance(a, U) and not isinstance(b, U) else None
        return [(st, U(mmul(pa[0], pb[0], -1), tmul(pa[1], pb[1], -1), disp, e, arr))]
    if op == "**":
        bb = b.v if isinstance(b, C) else None
        if bb is not None:
            return [(st, U(mpow(pa[0], bb), mpow(pa[1], bb) if pa[1] != ANY else ANY, None, e, arr))]
        k = ex.lin_key(eng.expr_of(st, b))
        return [(st, U(mpow(pa[0], k) if pa[0] is not None else None, mpow(pa[1], k) if pa[1] not in (None, ANY) else
                       pa[1], None, e, arr))]
    if op in ("+", "-"):
        if isinstance(a, U) and isinstance(b, U):
            ea, eb = U.eff(a) if a.tn not in (None, ANY) and a.mon is not None else None, \
                U.eff(b) if b.tn not in (None, ANY) and b.mon is not None else None
            if a.mon is not None and b.mon is not None:
                # the sum exists: both have the same dimension from here on
                k = mk("call", "unitsum", (e,), ())
                eng.unit_dim[k] = mdiv(a.mon, b.mon)
                st.assume[k] = True
            return [(st, U(a.mon, a.tn if a.tn != ANY else b.tn, a.disp, e, arr))]
        u = a if isinstance(a, U) else b
        return [(st, U(u.mon, u.tn, u.disp, e, arr))]
    return [(st, X(e, ty="unum"))]


def as_number(eng, st, u, to):
    """number of a Unum expressed in unit `to` (Unum value) or its own display unit"""
    tn = u.tn
    if to is not None and isinstance(to, U):
        if tn in (None, ANY) or to.tn in (None, ANY) or u.mon is None or to.mon is None:
            tag = tn if tn == ANY else None
        else:
            tag = red(mdiv(mmul(tn, to.eff()), u.mon))
        e = mk("call", "asNumber", (eng.expr_of(st, u), eng.expr_of(st, to)), ())
    elif to is not None:
        tag, e = None, mk("call", "asNumber", (eng.expr_of(st, u), eng.expr_of(st, to)), ())
    else:
        if tn in (None, ANY) or u.mon is None:
            tag = tn if tn == ANY else None
        else:
            d = u.disp if u.disp is not None else norm_atom(u.mon)
            tag = red(mdiv(mmul(tn, d), u.mon))
        e = mk("call", "asNumber", (eng.expr_of(st, u),), ())
    if u.arr:
        return eng.new_arr(st, e, tag)
    return N(e, tag, "num")


# ---------------------------------------------------------------------------- comparison
def compare(eng, st, op, a, b, node):
    ca, cb = eng.conc(st, a), eng.conc(st, b)
    if eng.novel is not None and any(isinstance(z, C) and isinstance(z.v, str) and eng.novel in z.v for z in (ca, cb)) and \
            not any(isinstance(z, C) and not isinstance(z.v, str) for z in (ca, cb)):
        eng.event(st, "novel-cmp", node)
        # a string nothing else mentions: equal to nothing, contained in nothing
        if op in ("==", "in") and any(isinstance(z, (S, N)) for z in (ca, cb)):
            return [(st, C(False))]
        if op in ("!=", "not in") and any(isinstance(z, (S, N)) for z in (ca, cb)):
            return [(st, C(True))]
    if op in ("is", "is not", "==", "!="):
        neg = op in ("is not", "!=")
        # comparison with None
        for x, y in ((ca, cb), (cb, ca)):
            if isinstance(y, C) and y.v is None:
                r = is_none(eng, st, x, node)
                return [(s, C(bool(v) != neg) if isinstance(v, bool) else v) for s, v in r]
    if op in ("in", "not in"):
        return contains(eng, st, ca, cb, op == "not in", node)
    if op in ("is", "is not"):
        op2 = "==" if op == "is" else "!="
        if isinstance(ca, R) and isinstance(cb, R):
            if len(ca.oids) == 1 and len(cb.oids) == 1:
                return [(st, C((ca.oids == cb.oids) == (op == "is")))]
            if not set(ca.oids) & set(cb.oids):
                return [(st, C(op == "is not"))]
            return [(st, N(mk("cmp", op, eng.expr_of(st, ca), eng.expr_of(st, cb)), (), "bool"))]
        if {type(ca), type(cb)} == {R, S}:
            return [(st, N(mk("cmp", op, eng.expr_of(st, ca), eng.expr_of(st, cb)), (), "bool"))]
        op = op2
    # constants
    if isinstance(ca, C) and isinstance(cb, C):
        try:
            r = {"==": lambda: ca.v == cb.v, "!=": lambda: ca.v != cb.v, "<": lambda: ca.v < cb.v,
                 "<=": lambda: ca.v <= cb.v, ">": lambda: ca.v > cb.v, ">=": lambda: ca.v >= cb.v}[op]()
            return [(st, C(bool(r)))]
        except TypeError:
            eng.raise_(st, "TypeError", node)
            return []
    # types
    if isinstance(ca, (K, E)) and isinstance(cb, (K, E)) and op in ("==", "!="):
        return [(st, C((ca == cb) == (op == "==")))]
    if op in ("==", "!="):
        for x, y in ((ca, cb), (cb, ca)):
            if isinstance(x, S) and isinstance(y, C):
                return sym_eq(eng, st, x, y, op == "!=", node)
    # instances
    for x, y in ((ca, cb), (cb, ca)):
        c = eng.class_of(st, x)
        if c is not None:
            from .engine import CMPDUNDER
            from .prog import FuncInfo
            nm = CMPDUNDER.get(op)
            m = c.lookup(nm) if nm else None
            if isinstance(m, FuncInfo) and x is ca:
                return eng.call(st, F(m), [x, y], {}, node)
            if op == "!=" and isinstance(c.lookup("__eq__"), FuncInfo) and x is ca:
                out = []
                for s, v in eng.call(st, F(c.lookup("__eq__")), [x, y], {}, node):
                    out.extend((s2, C(not bb)) for s2, bb in eng.truth(s, v, node))
                return out
    if isinstance(ca, T) and isinstance(cb, T) and op in ("==", "!="):
        if len(ca.items) != len(cb.items):
            return [(st, C(op == "!="))]
        ea, eb = eng.expr_of(st, ca), eng.expr_of(st, cb)
        if ea == eb:
            return [(st, C(op == "=="))]
        return [(st, N(mk("cmp", op, ea, eb), (), "bool"))]
    ea, eb = eng.expr_of(st, ca), eng.expr_of(st, cb)
    if isinstance(ca, U) or isinstance(cb, U):
        arr = any(isinstance(v, U) and v.arr for v in (ca, cb))
        if isinstance(ca, U) and isinstance(cb, U) and not arr and ea == eb and ea is not None and op in ("==", "!="):
            return [(st, C(op == "=="))]
        r = mk("cmp", op, ea, eb)
        if isinstance(ca, U) and isinstance(cb, U) and ca.mon is not None and cb.mon is not None and \
                ca.tn not in (None, ANY) and cb.tn not in (None, ANY) and op in ("==", "!="):
            eng.unit_cmp[r] = (op, mdiv(mdiv(ca.mon, ca.tn), mdiv(cb.mon, cb.tn)))
        return [(st, eng.new_arr(st, r, (), ty="bool") if arr else N(r, (), "bool"))]
    ta, tb = eng.tag_of(st, ca), eng.tag_of(st, cb)
    if op in ("<", "<=", ">", ">=") and tags_conflict(ta, tb):
        eng.event(st, "unit-mix", node, what=op, a=red(ta), b=red(tb))
    if op in ("==", "!="):
        for x, y, t in ((ca, cb, ta), (cb, ca, tb)):
            if isinstance(y, C) and y.v == 1 and not isinstance(y.v, bool) and isinstance(x, N) and t not in (None, ANY, LIT):
                eng.unit_cmp[mk("cmp", op, ea, eb)] = (op, t)
    arr = all_of(st, ca, Arr) or all_of(st, cb, Arr) or (all_of(st, ca, Lst) and st.heap[ca.oids[0]].kind == "objarr")
    if op in ("==", "!=") and ex.lin_diff_const(ea, eb) is not None and not arr:
        d = ex.lin_diff_const(ea, eb)
        n = ex.node(ea)
        if not (n[0] == "opq" and n[1] and n[1][0] == "deep"):
            return [(st, C((d == 0) == (op == "==")))]
    if op in ("<", "<=", ">", ">=") and not arr:
        d = ex.lin_diff_const(ea, eb)
        if d is not None:
            return [(st, C({"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[op]))]
    e = mk("cmp", op, ea, eb)
    if arr:
        nd = [ndim_of(st, v) for v in (ca, cb)]
        nd = [x for x in nd if x is not None]
        return [(st, eng.new_arr(st, e, (), ty="bool", ndim=max(nd) if nd else None))]
    if isinstance(ca, (N, C, T)) and isinstance(cb, (N, C, T)):
        return [(st, N(e, (), "bool"))]
    return [(st, X(e, ty="bool"))]


def is_none(eng, st, v, node):
    """-> [(st, True/False | Val)]"""
    if isinstance(v, C):
        return [(st, v.v is None)]
    if isinstance(v, S):
        t = eng.types_of(st, v.key)
        if "none" not in t:
            return [(st, False)]
        if t == frozenset(["none"]):
            return [(st, True)]
        if C(None) in st.neq.get(v.key, ()):
            return [(st, False)]
        a, b = st, st.fork()
        a.binds[v.key] = C(None)
        a.types[v.key] = frozenset(["none"])
        b.types[v.key] = t - {"none"}
        a.optf += 1
        b.optf += 1
        a.trail += ("%s is None" % v.key,)
        b.trail += ("%s given" % v.key,)
        return [(a, True), (b, False)]
    if isinstance(v, X) and v.ty is None:
        e = mk("call", "isnone", (v.expr,), ())
        return [(s, bb) for s, bb in eng.fork_bool(st, e)]
    return [(st, False)]


def const_cat(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    return "other"


def sym_eq(eng, st, s, c, neg, node):
    t = eng.types_of(st, s.key)
    cat = const_cat(c.v)
    ok = {cat}
    if cat in ("int", "float", "bool"):
        ok |= {"int", "float", "bool", "complex"}
    if not (t & ok):
        return [(st, C(neg))]
    if c in st.neq.get(s.key, ()):
        return [(st, C(neg))]
    if t == frozenset(["bool"]) and isinstance(c.v, (bool, int)):
        a, b = st, st.fork()
        a.binds[s.key] = C(bool(c.v))
        b.binds[s.key] = C(not bool(c.v))
        return [(a, C(not neg)), (b, C(neg))]
    a, b = st, st.fork()
    a.binds[s.key] = c
    a.types[s.key] = frozenset([cat])
    b.neq[s.key] = b.neq.get(s.key, frozenset()) | {c}
    a.optf += 1
    b.optf += 1
    a.trail += ("%s == %r" % (s.key, c.v),)
    b.trail += ("%s != %r" % (s.key, c.v),)
    return [(a, C(not neg)), (b, C(neg))]


def contains(eng, st, a, b, neg, node):
    items = None
    if isinstance(b, T):
        items = b.items
    elif isinstance(b, R) and len(b.oids) == 1:
        h = st.heap[b.oids[0]]
        if isinstance(h, Lst):
            items = h.items
        elif isinstance(h, Dct) and not h.open:
            items = tuple(h.items)
    if isinstance(b, C) and isinstance(b.v, str) and isinstance(a, C) and isinstance(a.v, str):
        return [(st, C((a.v in b.v) != neg))]
    if items is not None:
        items = [eng.conc(st, x) for x in items]
        if isinstance(a, C) and all(isinstance(x, C) for x in items):
            return [(st, C(any(x.v == a.v and type(x.v) == type(a.v) or x == a for x in items) != neg))]
        if isinstance(a, S) and all(isinstance(x, C) for x in items):
            out = []
            cur = [st]
            for x in items:
                nxt = []
                for s in cur:
                    for s2, v in sym_eq(eng, s, a, x, False, node):
                        if v.v:
                            out.append((s2, C(not neg)))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, C(neg)) for s in cur)
            return out
        if isinstance(a, (K, E)) and all(isinstance(x, (K, E)) for x in items):
            return [(st, C((a in items) != neg))]
    c = eng.class_of(st, b)
    e = mk("cmp", "not in" if neg else "in", eng.expr_of(st, a), eng.expr_of(st, b))
    return [(st, N(e, (), "bool"))]


# ---------------------------------------------------------------------------- indexing
def get_item(eng, st, base, idx, node):
    items, istuple = idx
    base = eng.conc(st, base)
    if isinstance(base, S):
        t = st.types.get(base.key)
        if len(items) == 1 and items[0][0] == "v" and not istuple:
            i = eng.conc(st, items[0][1])
            if isinstance(i, C):
                return [(st, S("%s[%r]" % (base.key, i.v)))]
        desc, basic = shape_desc(eng, st, items)
        return [(st, X(mk_idx(leaf(base.key), desc), ty="str" if t == frozenset(["str"]) else None))]
    if isinstance(base, C) and isinstance(base.v, str):
        return [(st, X(mk("idx", eng.expr_of(st, base), shape_desc(eng, st, items)[0]), ty="str"))]
    if isinstance(base, T):
        if len(items) == 1:
            it = items[0]
            if it[0] == "v":
                i = eng.conc(st, it[1])
                if isinstance(i, C) and isinstance(i.v, int):
                    if -len(base.items) <= i.v < len(base.items):
                        return [(st, base.items[i.v])]
                    eng.raise_(st, "IndexError", node)
                    return []
            elif it[0] == "s":
                ps = [None if x is None else eng.conc(st, x) for x in it[1:]]
                if all(p is None or (isinstance(p, C) and (p.v is None or isinstance(p.v, int))) for p in ps):
                    return [(st, T(base.items[slice(*[None if p is None else p.v for p in ps])]))]
        if base.items:
            v = base.items[0]
            for x in base.items[1:]:
                v = eng.join_val(st, v, st, x, st)
            return [(st, v)]
        return [(st, X(opaque()))]
    if isinstance(base, R):
        out = []
        vals = []
        for o in base.oids:
            r = get_item_oid(eng, st, o, items, istuple, node)
            if r is None:
                continue
            if len(base.oids) == 1:
                return r
            vals.extend(v for s, v in r)
        if not vals:
            return []
        v = vals[0]
        for x in vals[1:]:
            v = eng.join_val(st, v, st, x, st)
        return [(st, v)]
    if isinstance(base, X):
        desc, basic = shape_desc(eng, st, items)
        return [(st, X(mk_idx(base.expr, desc), base.refs if basic else (), "str" if base.ty == "str" else None))]
    if isinstance(base, U):
        desc, basic = shape_desc(eng, st, items)
        return [(st, U(base.mon, base.tn, base.disp, mk_idx(eng.expr_of(st, base), desc), False))]
    if isinstance(base, N):
        desc, basic = shape_desc(eng, st, items)
        return [(st, N(mk_idx(base.expr, desc), base.tag, base.ty))]
    return [(st, X(mk("idx", eng.expr_of(st, base), shape_desc(eng, st, items)[0])))]


def get_item_oid(eng, st, o, items, istuple, node):
    h = st.heap[o]
    if isinstance(h, Inst):
        m = h.cls.lookup("__getitem__") if h.cls is not None else None
        from .prog import FuncInfo
        if isinstance(m, FuncInfo):
            it = items[0]
            if istuple:
                v = T([x[1] if x[0] == "v" else XM(T([C(None) if y is None else y for y in x[1:]]), "@slice")
                       for x in items if x[0] != "e"])
            elif it[0] == "s":
                v = XM(T([C(None) if y is None else y for y in it[1:]]), "@slice")
            else:
                v = it[1]
            return eng.call(st, F(m), [R((o,)), v], {}, node)
        if h.cls is not None and not h.cls.has_ext_base():
            eng.note("not-subscriptable", node, "%s objects cannot be indexed" % h.cls.name, st)
            eng.raise_(st, "TypeError", node)
            return []
        return [(st, X(mk("idx", eng.expr_of(st, R((o,))), shape_desc(eng, st, items)[0]), (o,)))]
    if isinstance(h, Arr):
        desc, basic = shape_desc(eng, st, items)
        nd = h.ndim
        nints = sum(1 for d in desc if d[0] == "i")
        if basic:
            own = h.owner if h.base is None else None
            if nd is None and own and own.startswith("arg:") and h.expr == leaf(own) and len(desc) == 1 \
                    and desc[0][0] == "i":
                i = desc[0][1]
                key = "%s[%s]" % (own, ex.const_val(i) if ex.is_const(i) else "*%d" % i)
                return [(st, S(key))]
            if nints and (nd is not None and nints >= nd):
                return [(st, N(mk_idx(eng.arr_expr(st, o), desc), h.tag, "bool" if h.ty == "bool" else
                               ("int" if h.ty == "int" else "num")))]
            if nints and nd is None and nints == len(desc):
                # 1-D or row of a 2-D array: unknown rank
                if nints >= 2:
                    return [(st, N(mk_idx(eng.arr_expr(st, o), desc), h.tag, "num"))]
                return [(st, X(mk_idx(eng.arr_expr(st, o), desc), (o,)))] if h.tag is None else \
                    [(st, N(mk_idx(eng.arr_expr(st, o), desc), h.tag, "num"))]
            nnew = sum(1 for d in desc if d[0] == "n")
            return [(st, eng.make_view(st, o, ("idx", desc), ndim=None if nd is None else nd - nints + nnew))]
        # fancy / boolean indexing: copy
        nd2 = None
        if nd is not None:
            na = [d for d in desc if d[0] == "a"]
            if len(na) == 1:
                v = [eng.conc(st, it[1]) for it in items if it[0] == "v" and not isinstance(eng.conc(st, it[1]), C)]
                v = [x for x in v if not isinstance(x, N)]
                isb = bool(v) and all_of(st, v[0], Arr) and st.heap[v[0].oids[0]].ty == "bool"
                if isb and len(desc) == 1 and nd == 2 and ndim_of(st, v[0]) != 1:
                    nd2 = 1
                else:
                    nd2 = nd - nints
            elif len(na) == nd:
                nd2 = 1
        ma = mk_idx(h.ma, desc) if h.ma is not None else None
        return [(st, eng.new_arr(st, mk_idx(eng.arr_expr(st, o), desc), h.tag, ndim=nd2, ty=h.ty, ma=ma))]
    if isinstance(h, Lst):
        it = items[0]
        if it[0] == "v":
            i = eng.conc(st, it[1])
            if isinstance(i, XM) and i.name == "@slice":
                it = ("s",) + tuple(i.recv.items)
            elif isinstance(i, C) and isinstance(i.v, int) and not isinstance(i.v, bool) and h.items is not None:
                if -len(h.items) <= i.v < len(h.items):
                    return [(st, h.items[i.v])]
                eng.raise_(st, "IndexError", node)
                return []
        if it[0] == "s":
            ps = [None if x is None else eng.conc(st, x) for x in it[1:]]
            if h.items is not None and all(p is None or (isinstance(p, C) and (p.v is None or isinstance(p.v, int)))
                                           for p in ps):
                return [(st, eng.new_list(st, h.items[slice(*[None if p is None else p.v for p in ps])], kind=h.kind))]
            el = h.elem
            for x in (h.items or ()):
                el = x if el is None else eng.join_val(st, el, st, x, st)
            return [(st, eng.new_list(st, None, el, kind=h.kind))]
        i = eng.conc(st, it[1]) if it[0] == "v" else None
        el = h.elem
        for x in (h.items or ()):
            el = x if el is None else eng.join_val(st, el, st, x, st)
        if el is None:
            if h.items is not None and not h.items:
                return [(st, X(opaque()))]
            return [(st, X(mk("idx", eng.expr_of(st, R((o,))), shape_desc(eng, st, items)[0])))]
        if all_of(st, i, (Arr, Lst)) or isinstance(i, X) and i.ty is None and h.kind == "objarr":
            return [(st, eng.new_list(st, None, el, kind=h.kind))]
        if isinstance(el, N):
            n = ex.node(el.expr)
            return [(st, N(mk("idx", eng.expr_of(st, R((o,))), shape_desc(eng, st, items)[0]), el.tag, el.ty))]
        return [(st, el)]
    if isinstance(h, Dct):
        it = items[0]
        k = eng.conc(st, it[1]) if it[0] == "v" else None
        if isinstance(k, C):
            if k in h.items:
                return [(st, h.items[k])]
            if not h.open:
                eng.raise_(st, "KeyError", node)
                return []
            if h.owner:
                return [(st, S("%s[%r]" % (h.owner, k.v)))]
        return [(st, X(opaque(ex.deps(eng.expr_of(st, R((o,)))), tag="dict")))]
    return [(st, X(opaque()))]


def masked_index(eng, st, items):
    """is the index a selection made with a mask? (cells left out are missing data)"""
    for it in items:
        if it[0] != "v":
            continue
        for d in ex.deps(eng.expr_of(st, it[1])):
            if str(d).endswith("mask"):
                return True
    return False


def set_item(eng, st, base, idx, val, node):
    items, istuple = idx
    base = eng.conc(st, base)
    if isinstance(base, S):
        eng.write(st, base.key, node, "item assignment")
        desc, basic = shape_desc(eng, st, items)
        t = st.types.get(base.key)
        # from now on the container is a modified array
        nv = eng.alloc(st, Arr(mk_store(leaf(base.key), desc, eng.expr_of(st, val)), None, owner=base.key))
        st.binds[base.key] = nv
        return None
    if isinstance(base, R):
        multi = len(base.oids) > 1
        for o in base.oids:
            h = st.heap[o]
            if isinstance(h, Arr):
                desc, basic = shape_desc(eng, st, items)
                be = eng.arr_expr(st, o)
                ve = eng.expr_of(st, val)
                vt = eng.tag_of(st, val)
                if isinstance(eng.conc(st, val), U):
                    vt = None
                t = h.tag
                if vt == LIT:
                    nt = t
                elif vt == ANY or vt is None:
                    nt = t
                elif t in (ANY, None, LIT):
                    nt = vt if t != None else None
                    if t is None:
                        nt = None
                elif tags_conflict(t, vt):
                    if not masked_index(eng, st, items):
                        eng.event(st, "unit-mix", node, what="store", a=red(t), b=red(vt))
                    nt = vt
                else:
                    nt = t
                ne = mk_store(be, desc, ve)
                if multi:
                    ne = phi([be, ne])
                eng.set_arr(st, o, ne, nt, node, "element assignment")
                cv = eng.conc(st, val)
                if all_of(st, cv, Arr) and st.heap[cv.oids[0]].ma is not None:
                    pass
            elif isinstance(h, Lst):
                if h.owner is not None:
                    eng.write(st, h.owner, node, "item assignment")
                it = items[0]
                i = eng.conc(st, it[1]) if it[0] == "v" else None
                if isinstance(i, C) and isinstance(i.v, int) and h.items is not None and not multi \
                        and -len(h.items) <= i.v < len(h.items):
                    l = list(h.items)
                    l[i.v] = val
                    st.heap[o] = h.rep(items=tuple(l), lazy=None)
                else:
                    el = val
                    for x in list(h.items or ()) + ([h.elem] if h.elem is not None else []):
                        el = eng.join_val(st, el, st, x, st)
                    st.heap[o] = h.rep(items=None, elem=el, lazy=None,
                                       lenx=h.lenx if h.lenx is not None else
                                       (const(len(h.items)) if h.items is not None else None))
            elif isinstance(h, Dct):
                if h.owner is not None:
                    eng.write(st, h.owner, node, "item assignment")
                k = eng.conc(st, items[0][1]) if items[0][0] == "v" else None
                d = dict(h.items)
                if isinstance(k, C):
                    d[k] = val
                    st.heap[o] = h.rep(items=d)
                else:
                    st.heap[o] = h.rep(open=True)
            elif isinstance(h, Inst):
                m = h.cls.lookup("__setitem__") if h.cls is not None else None
                from .prog import FuncInfo
                if isinstance(m, FuncInfo):
                    k = items[0][1] if items[0][0] == "v" else XM(T([C(None) if y is None else y
                                                                     for y in items[0][1:]]), "@slice")
                    return [s for s, _ in eng.call(st, F(m), [R((o,)), k, val], {}, node)]
        return None
    if isinstance(base, X):
        for o in base.refs:
            own = eng.owner_of(st, o) if isinstance(st.heap[o], Arr) else getattr(st.heap[o], "owner", None)
            if own is not None and len(base.refs) == 1 and isinstance(st.heap[o], Arr):
                eng.set_arr(st, o, mk("call", "maybe-store", (eng.arr_expr(st, o), eng.expr_of(st, val)), ()),
                            node=node, what="element assignment")
        desc, basic = shape_desc(eng, st, items)
        return X(mk_store(base.expr, desc, eng.expr_of(st, val)), base.refs, base.ty)
    return None


def del_item(eng, st, base, idx, node):
    base = eng.conc(st, base)
    if isinstance(base, R):
        for o in base.oids:
            h = st.heap[o]
            if isinstance(h, Lst):
                if h.owner:
                    eng.write(st, h.owner, node, "item deletion")
                i = eng.conc(st, idx[0][0][1]) if idx[0][0][0] == "v" else None
                if h.items is not None and isinstance(i, C) and isinstance(i.v, int) and \
                        -len(h.items) <= i.v < len(h.items):
                    l = list(h.items)
                    del l[i.v]
                    st.heap[o] = h.rep(items=tuple(l), lazy=None)
                else:
                    st.heap[o] = list_summary(eng, st, h)
            elif isinstance(h, Dct):
                if h.owner:
                    eng.write(st, h.owner, node, "item deletion")
                k = eng.conc(st, idx[0][0][1]) if idx[0][0][0] == "v" else None
                if isinstance(k, C):
                    d = dict(h.items)
                    d.pop(k, None)
                    st.heap[o] = h.rep(items=d)
    elif isinstance(base, S):
        eng.write(st, base.key, node, "item deletion")


def list_summary(eng, st, h):
    el = h.elem
    for x in (h.items or ()):
        el = x if el is None else eng.join_val(st, el, st, x, st)
    return h.rep(items=None, elem=el, lazy=None, lenx=None)


# ---------------------------------------------------------------------------- iteration
_NK = {}


def node_key(node):
    """Stable identity of a syntax node (two loops on the same text at the same place only differ by position)."""
    k = _NK.get(node)
    if k is None:
        k = _NK[node] = "%s@%d:%d#%d" % (type(node).__name__, getattr(node, "lineno", 0),
                                         getattr(node, "col_offset", 0), len(_NK))
    return k


def iter_index(node, e):
    return mk("in", "iter:%s" % node_key(node)) if node is not None else opaque(tag="iter")


def iterate(eng, st, it, node):
    """-> (items or None, element, length expression)"""
    v = eng.conc(st, it)
    if isinstance(v, T):
        return list(v.items), None, const(len(v.items))
    if isinstance(v, C):
        if isinstance(v.v, str) and len(v.v) <= 6:
            return [C(c) for c in v.v], None, const(len(v.v))
        return None, X(opaque(), ty="str" if isinstance(v.v, str) else None), None
    ix = iter_index(node, None)
    if isinstance(v, R):
        if len(v.oids) == 1:
            o = v.oids[0]
            h = st.heap[o]
            if isinstance(h, Lst):
                if h.items is not None:
                    return list(h.items), None, const(len(h.items))
                el = h.elem if h.elem is not None else X(opaque())
                if isinstance(el, N):
                    el = N(mk("idx", eng.expr_of(st, v), (("i", ix),)), el.tag, el.ty)
                return None, el, h.lenx if h.lenx is not None else mk("call", "len", (eng.expr_of(st, v),), ())
            if isinstance(h, Dct):
                if not h.open:
                    return list(h.items), None, const(len(h.items))
                return None, X(opaque(), ty="str"), None
            if isinstance(h, Arr):
                e = eng.arr_expr(st, o)
                n = ex.node(e)
                lx = mk("call", "len", (e,), ())
                if n[0] == "call" and n[1] == "range":
                    lx = n[2][0] if len(n[2]) == 1 else mk("call", "rangelen", n[2], ())
                    return None, N(mk("idx", e, (("i", ix),)), (), "int"), lx
                d = (("i", ix),)
                if h.ndim == 1:
                    return None, N(mk_idx(e, d), h.tag, "bool" if h.ty == "bool" else ("int" if h.ty == "int"
                                                                                        else "num")), lx
                if h.ndim is not None and h.ndim > 1:
                    return None, eng.make_view(st, o, ("idx", d), ndim=h.ndim - 1), lx
                if h.owner and h.base is None and h.expr == leaf(h.owner):
                    return None, S(h.owner + "[*]"), lx
                if h.tag is not None:
                    return None, N(mk_idx(e, d), h.tag, "num"), lx
                return None, X(mk_idx(e, d), (o,)), lx
            if isinstance(h, Inst) and h.cls is not None:
                m = h.cls.lookup("__iter__")
                from .prog import FuncInfo
                if isinstance(m, FuncInfo):
                    res = eng.call(st.fork(), F(m), [v], {}, node)
                    if res:
                        s2, r = res[0]
                        for sl in State.__slots__:
                            setattr(st, sl, getattr(s2, sl))
                        if r != v:
                            return iterate(eng, st, r, node)
        if len(v.oids) == 1:
            return None, X(opaque()), None
        vals = []
        for o in v.oids:
            i2, e2, _ = iterate(eng, st, R((o,)), node)
            vals.extend(i2 or [])
            if e2 is not None:
                vals.append(e2)
        if vals:
            el = vals[0]
            for x in vals[1:]:
                el = eng.join_val(st, el, st, x, st)
            return None, el, None
        return None, X(opaque()), None
    if isinstance(v, S):
        return None, S(v.key + "[*]"), mk("call", "len", (leaf(v.key),), ())
    e = eng.expr_of(st, v)
    if isinstance(v, X):
        return None, X(mk("idx", e, (("i", ix),)), v.refs, "str" if v.ty == "str" else None), \
            mk("call", "len", (e,), ())
    return None, X(mk("idx", e, (("i", ix),))), None


def surely_nonempty(eng, st, it, lx):
    if lx is None:
        return False
    if ex.is_const(lx):
        try:
            return ex.const_val(lx) > 0
        except TypeError:
            return False
    d = ex.deps(lx)
    return bool(d) and all("." in p and not p.startswith(("iter:", "global:")) for p in d)


def unpack(eng, st, val, n):
    v = eng.conc(st, val)
    if isinstance(v, T):
        its = list(v.items)
        return its if len(its) == n else its[:n] + [X(opaque())] * (n - len(its))
    if isinstance(v, R) and len(v.oids) == 1:
        h = st.heap[v.oids[0]]
        if isinstance(h, Lst):
            if h.items is not None and len(h.items) == n:
                return list(h.items)
            if h.elem is not None:
                return [h.elem] * n
    out = []
    for i in range(n):
        r = get_item(eng, st, val, ((("v", C(i)),), False), None)
        out.append(r[0][1] if r and r[0][0] is st else X(opaque(ex.deps(eng.expr_of(st, val)))))
    return out


def inplace_op(eng, st, op, a, b, node):
    ca = eng.conc(st, a)
    if all_of(st, ca, Arr):
        cb = eng.conc(st, b)
        if isinstance(cb, U) or eng.class_of(st, cb) is not None or (isinstance(cb, X) and cb.ty == "unum"):
            return eng.binop(st, op, a, b, node)
        if any(st.heap[o].kind == "list" or (st.heap[o].owner in st.types and
                                              not st.types[st.heap[o].owner] & {"ndarray", "masked"})
               for o in ca.oids):
            return eng.binop(st, op, a, b, node)
        out = []
        for s, v in binop(eng, st, op, ca, cb, node):
            h = single(s, v, Arr)
            if h is None:
                out.append((s, v))
                continue
            e, t = h.expr, h.tag
            ma = h.ma
            s.heap.pop(v.oids[0], None)
            for o in ca.oids:
                oe = eng.arr_expr(s, o)
                eng.set_arr(s, o, e if len(ca.oids) == 1 else phi([oe, e]), t, node, "in-place '%s='" % op)
            out.append((s, ca))
        return out
    h = single(st, ca, Lst)
    if h is not None and op == "+" and h.kind in ("list", "gen"):
        cb = eng.conc(st, b)
        extend_list(eng, st, ca.oids[0], cb, node)
        return [(st, ca)]
    if isinstance(ca, S) and (st.types.get(ca.key) is None or st.types[ca.key] & {"ndarray", "list", "masked"}) \
            and op in ("+", "-", "*", "/") and not (st.types.get(ca.key) or set()) & {"int", "float"}:
        # unknown input: might be an array and be changed in place
        pass
    c = eng.class_of(st, ca)
    if c is not None:
        from .engine import DUNDER
        from .prog import FuncInfo
        m = c.lookup("__i%s__" % DUNDER.get(op, "?"))
        if isinstance(m, FuncInfo):
            return eng.call(st, F(m), [ca, b], {}, node)
    return eng.binop(st, op, a, b, node)


def extend_list(eng, st, o, cb, node):
    h = st.heap[o]
    if h.owner:
        eng.write(st, h.owner, node, "list extension")
    if isinstance(cb, T) and h.items is not None:
        st.heap[o] = h.rep(items=h.items + cb.items, lazy=None)
        return
    h2 = single(st, cb, Lst)
    if h2 is not None and h2.items is not None and h.items is not None:
        st.heap[o] = h.rep(items=h.items + h2.items, lazy=None)
        return
    items, el, _ = iterate(eng, st, cb, node)
    hs = list_summary(eng, st, h)
    e = hs.elem
    for x in (items or []) + ([el] if el is not None else []):
        e = x if e is None else eng.join_val(st, e, st, x, st)
    st.heap[o] = hs.rep(elem=e)


# ---------------------------------------------------------------------------- library functions
KEEP = set("""abs absolute fabs max min amax amin nanmax nanmin mean nanmean median nanmedian std nanstd sum nansum cumsum sort
round around rint floor ceil real_if_close maximum minimum clip unwrap percentile diff ptp average nan_to_num
conj conjugate roll pad repeat tile unique delete ediff1d negative""".split())
REDUCE = set("""max min amax amin nanmax nanmin mean nanmean median nanmedian std nanstd sum nansum var nanvar ptp average
any all argmin argmax nanargmin nanargmax count_nonzero prod trapz simps percentile linalg.norm""".split())
BOOLF = set("""isnan isinf isfinite logical_or logical_and logical_not logical_xor any all isclose allclose iscomplex
isreal equal not_equal greater less greater_equal less_equal array_equal""".split())
DIMLESS = set("""sin cos tan arcsin arccos arctan arctan2 exp log log10 log2 sign angle argsort argmin argmax argwhere
nonzero searchsorted count_nonzero digitize sinh cosh tanh where unravel_index rad2deg deg2rad radians degrees bincount
floor_divide nanargmin nanargmax argpartition lexsort""".split())
INTF = set("argsort argmin argmax argwhere nonzero searchsorted digitize nanargmin nanargmax count_nonzero".split())


def kw_expr(eng, st, kwargs):
    return tuple((k, eng.expr_of(st, v)) for k, v in sorted(kwargs.items()) if k not in ("dtype", "out"))


def arrayify(eng, st, v):
    """(expr, tag, ndim, ma, ty) of a value seen as an array"""
    v = eng.conc(st, v)
    ma = ty = None
    if all_of(st, v, Arr):
        h = st.heap[v.oids[0]]
        ma, ty = h.ma, h.ty
    n = num_like(eng, st, v)
    tag = n[1] if n is not None else None
    if isinstance(v, U):
        tag = None
    return eng.expr_of(st, v), tag, ndim_of(st, v), ma, ty


def call_ext(eng, st, name, args, kwargs, node):
    if name.startswith("builtins."):
        f = BUILTIN.get(name[9:])
        if f is not None:
            r = f(eng, st, args, kwargs, node)
            if r is not None:
                return r
    elif name.startswith("numpy."):
        r = numpy_call(eng, st, name, args, kwargs, node)
        if r is not None:
            return r
    elif name in ("copy.deepcopy", "copy.copy"):
        if args:
            return [(st, deep(eng, st, args[0]) if name.endswith("deepcopy") else shallow(eng, st, args[0]))]
    elif name in EXTRA:
        r = EXTRA[name](eng, st, args, kwargs, node)
        if r is not None:
            return r
    elif name.startswith("unum.") and args:
        pass
    es = tuple(eng.expr_of(st, a) for a in args)
    ty = None
    if name.startswith(("os.path.", "builtins.str", "os.getcwd")):
        ty = "str"
    if name.startswith("os.path.") and name.split(".")[-1] in ("exists", "isdir", "isfile", "split", "splitext"):
        ty = None
    if name == "builtins.str":
        ty = "str"
    nm = name
    if name in ("os.path.exists", "os.path.isfile", "os.path.isdir", "builtins.open", "builtins.input", "time.time"):
        return [(st, X(opaque(frozenset().union(*[ex.deps(e) for e in es]) if es else frozenset(), tag=name), ty=ty))]
    return [(st, X(mk("call", nm, es, kw_expr(eng, st, kwargs)), ty=ty))]


def res_arr_or_num(eng, st, e, tag, nd, ty="num"):
    if nd == 0:
        return N(e, tag, ty)
    return eng.new_arr(st, e, tag, ndim=nd, ty=ty)


def numpy_call(eng, st, name, args, kwargs, node):
    f = name[6:]
    fl = f.split(".")[-1]
    args = list(args)
    cargs = [eng.conc(st, a) for a in args]
    for k in ("a", "object", "obj", "x", "arr", "data", "array", "m"):
        if not cargs and k in kwargs:
            kwargs = dict(kwargs)
            cargs = [eng.conc(st, kwargs.pop(k))]
    # arrays of objects
    if fl in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d") and cargs:
        return [(st, np_array(eng, st, cargs[0], kwargs, fl, node))]
    if f in ("ma.masked_array", "ma.array", "ma.MaskedArray", "ma.core.MaskedArray") and cargs:
        a = cargs[0]
        m = cargs[1] if len(cargs) > 1 else kwargs.get("mask")
        me = eng.expr_of(st, m) if m is not None else None
        if all_of(st, a, Arr) and len(a.oids) == 1:
            if f == "ma.array":
                r = copy_arr(eng, st, a)
            else:
                r = eng.make_view(st, a.oids[0], ("same",), ndim=ndim_of(st, a))
            st.heap[r.oids[0]] = st.heap[r.oids[0]].rep(ma=me)
            return [(st, r)]
        e, t, nd, _, ty = arrayify(eng, st, a)
        return [(st, eng.new_arr(st, e, t, ndim=nd, ma=me))]
    if f in ("ma.masked_where",) and len(cargs) >= 2:
        e, t, nd, _, ty = arrayify(eng, st, cargs[1])
        return [(st, eng.new_arr(st, e, t, ndim=nd, ma=eng.expr_of(st, cargs[0])))]
    if fl in ("copy",) and cargs:
        if all_of(st, cargs[0], Arr):
            return [(st, copy_arr(eng, st, cargs[0]))]
        e, t, nd, ma, ty = arrayify(eng, st, cargs[0])
        return [(st, eng.new_arr(st, e, t, ndim=nd, ma=ma))]
    if fl in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "eye", "identity"):
        es = tuple(eng.expr_of(st, a) for a in cargs)
        dt = kwargs.get("dtype") or (cargs[1] if len(cargs) > 1 and fl in ("zeros", "ones", "empty") else None)
        isb = dt is not None and isinstance(eng.conc(st, dt), E) and eng.conc(st, dt).name in (
            "builtins.bool", "numpy.bool", "numpy.bool_")
        if dt is not None and isinstance(eng.conc(st, dt), E) and eng.conc(st, dt).name == "builtins.object":
            sh = cargs[0] if cargs else kwargs.get("shape")
            lx = eng.expr_of(st, sh) if sh is not None else opaque()
            return [(st, eng.new_list(st, None, None, kind="objarr", lenx=lx))]
        tag = {"z": ANY, "e": ANY, "o": LIT, "f": None, "i": LIT}[fl[0]]
        if fl in ("eye",):
            tag = LIT
        if fl == "full" and len(cargs) > 1:
            tag = eng.tag_of(st, cargs[1])
        if fl == "full_like" and len(cargs) > 1:
            tag = eng.tag_of(st, cargs[1])
        nd = None
        if fl.endswith("_like"):
            nd = ndim_of(st, cargs[0]) if cargs else None
        elif cargs:
            s0 = cargs[0]
            if isinstance(s0, T):
                nd = len(s0.items)
            elif single(st, s0, Lst) is not None and single(st, s0, Lst).items is not None:
                nd = len(single(st, s0, Lst).items)
            elif isinstance(s0, N) or is_num_c(s0):
                nd = 1
        if fl == "full" and len(es) > 1:
            ex_ = mk("call", "numpy.full", es[:2], ())
        else:
            ex_ = mk("call", "numpy." + fl, es[:2] if fl == "full_like" else es[:1], ())
        return [(st, eng.new_arr(st, ex_, () if isb else tag, ndim=nd, ty="bool" if isb else "num"))]
    if fl in ("arange",):
        es = tuple(eng.expr_of(st, a) for a in cargs)
        if len(cargs) == 2 and isinstance(cargs[0], C) and cargs[0].v == 0:
            es = es[1:]
        ints = all((isinstance(a, N) and a.ty == "int") or (isinstance(a, C) and isinstance(a.v, int)) for a in cargs)
        if ints or len(cargs) == 1:
            return [(st, eng.new_arr(st, mk("call", "range", es, ()), (), ndim=1, ty="int"))]
        t = None
        for a in cargs:
            ta = eng.tag_of(st, a)
            t = ta if t is None or t in (ANY, LIT) else t
        return [(st, eng.new_arr(st, mk("call", "numpy.arange", es, kw_expr(eng, st, kwargs)), t, ndim=1))]
    if fl in ("linspace", "logspace"):
        es = tuple(eng.expr_of(st, a) for a in cargs)
        t = None
        if len(cargs) >= 2 and fl == "linspace":
            t = tag_join_add(eng, st, eng.tag_of(st, cargs[0]), eng.tag_of(st, cargs[1]), node, "linspace")
        return [(st, eng.new_arr(st, mk("call", name, es, kw_expr(eng, st, kwargs)), t, ndim=1))]
    if fl in ("transpose", "flipud", "fliplr", "rot90", "flip", "ravel", "reshape", "squeeze", "real", "swapaxes",
              "moveaxis", "atleast_3d", "expand_dims", "broadcast_to", "rollaxis") and cargs:
        return np_view(eng, st, fl, cargs[0], cargs[1:], kwargs, node)
    if fl in ("append", "concatenate", "hstack", "vstack", "column_stack", "dstack", "stack", "r_", "c_", "block") and \
            cargs:
        return np_concat(eng, st, fl, cargs, kwargs, node)
    if fl == "meshgrid" and cargs:
        es = tuple(eng.expr_of(st, a) for a in cargs)
        kx = kw_expr(eng, st, kwargs)
        return [(st, T([eng.new_arr(st, mk("call", "numpy.meshgrid", (const(i),) + es, kx), eng.tag_of(st, a), ndim=2)
                        for i, a in enumerate(cargs)]))]
    if fl == "gradient" and cargs:
        e, t, nd, ma, ty = arrayify(eng, st, cargs[0])
        steps = cargs[1:]
        n_out = nd if nd else (len(steps) if len(steps) > 1 else None)
        if "axis" in kwargs:
            n_out = 1
        outs = []
        for i in range(n_out or 1):
            sp = steps[i] if i < len(steps) else (steps[0] if steps else None)
            if len(steps) == 1:
                sp = steps[0]
            tt = tag_mul(t, eng.tag_of(st, sp), -1) if sp is not None else t
            se = (eng.expr_of(st, sp),) if sp is not None else ()
            outs.append(eng.new_arr(st, mk("call", "numpy.gradient", (const(i), e) + se, kw_expr(eng, st, kwargs)), tt,
                                    ndim=nd, ma=ma))
        if n_out is None:
            return [(st, X(mk("call", "numpy.gradient", tuple(eng.expr_of(st, a) for a in cargs), ())))]
        return [(st, outs[0] if n_out == 1 else T(outs))]
    if fl == "where":
        es = tuple(eng.expr_of(st, a) for a in cargs)
        if len(cargs) == 3:
            t = tag_join_add(eng, st, eng.tag_of(st, cargs[1]), eng.tag_of(st, cargs[2]), node, "where")
            nds = [ndim_of(st, a) for a in cargs]
            nds = [x for x in nds if x is not None]
            return [(st, eng.new_arr(st, mk("call", "numpy.where", es, ()), t, ndim=max(nds) if nds else None))]
        nd = ndim_of(st, cargs[0]) if cargs else None
        if nd:
            return [(st, T([eng.new_arr(st, mk("call", "numpy.where", es + (const(i),), ()), (), ndim=1, ty="int")
                            for i in range(nd)]))]
        return [(st, X(mk("call", "numpy.where", es, ())))]
    if fl in ("trapz", "simps", "trapezoid", "cumtrapz") and cargs:
        x = cargs[1] if len(cargs) > 1 else kwargs.get("x", kwargs.get("dx"))
        t = eng.tag_of(st, cargs[0])
        if x is not None:
            t = tag_mul(t, eng.tag_of(st, x))
        es = tuple(eng.expr_of(st, a) for a in cargs)
        nd = ndim_of(st, cargs[0])
        return [(st, res_arr_or_num(eng, st, mk("call", name, es, kw_expr(eng, st, kwargs)), t,
                                    nd - 1 if nd else None) if nd else X(mk("call", name, es,
                                                                            kw_expr(eng, st, kwargs))))]
    if fl == "interp" and len(cargs) >= 3:
        es = tuple(eng.expr_of(st, a) for a in cargs)
        tx, tp = eng.tag_of(st, cargs[0]), eng.tag_of(st, cargs[1])
        tag_join_add(eng, st, tx, tp, node, "interp")
        return [(st, res_arr_or_num(eng, st, mk("call", "numpy.interp", es, kw_expr(eng, st, kwargs)),
                                    eng.tag_of(st, cargs[2]), ndim_of(st, cargs[0])))]
    if fl in ("sqrt", "square", "power", "multiply", "divide", "true_divide", "add", "subtract", "dot", "inner",
              "outer", "var", "cross", "matmul", "nanvar", "float_power", "hypot", "mod", "cbrt", "reciprocal",
              "floor_divide", "convolve", "correlate"):
        r = None
        ops = {"multiply": "*", "divide": "/", "true_divide": "/", "add": "+", "subtract": "-", "power": "**",
               "mod": "%", "floor_divide": "//"}
        if fl in ops and len(cargs) == 2 and "out" not in kwargs:
            return eng.binop(st, ops[fl], cargs[0], cargs[1], node)
        e0, t0, nd, ma, ty = arrayify(eng, st, cargs[0])
        if fl == "sqrt":
            t = mpow(norm_lit(t0), Fraction(1, 2))
        elif fl in ("square", "var", "nanvar"):
            t = mpow(norm_lit(t0), 2)
        elif fl in ("dot", "inner", "outer", "cross", "matmul") and len(cargs) > 1:
            t = tag_mul(t0, eng.tag_of(st, cargs[1]))
            nd = None
        elif fl in ("convolve", "correlate") and len(cargs) > 1:
            t = tag_mul(t0, eng.tag_of(st, cargs[1]))
        elif fl == "hypot" and len(cargs) > 1:
            t = tag_join_add(eng, st, t0, eng.tag_of(st, cargs[1]), node, "hypot")
        else:
            t = None
        if fl in ("var", "nanvar"):
            nd = 0 if "axis" not in kwargs and len(cargs) == 1 else (nd - 1 if nd else None)
        e = mk("call", name, tuple(eng.expr_of(st, a) for a in cargs), kw_expr(eng, st, kwargs))
        if isinstance(cargs[0], U) or (isinstance(cargs[0], (X, S)) and nd is None):
            return [(st, X(e))]
        r = res_arr_or_num(eng, st, e, t, nd)
        if isinstance(r, R) and ma is not None:
            st.heap[r.oids[0]] = st.heap[r.oids[0]].rep(ma=ma)
        return out_kw(eng, st, r, kwargs, node)
    if fl in BOOLF | DIMLESS | KEEP | REDUCE or fl in ("imag",):
        if not cargs:
            return None
        if fl in ("any", "all") and False:
            return None
        e0, t0, nd, ma, ty0 = arrayify(eng, st, cargs[0])
        es = tuple(eng.expr_of(st, a) for a in cargs)
        if fl in ("logical_or", "logical_and", "maximum", "minimum", "isclose", "allclose", "equal") and len(es) >= 2:
            nd2 = ndim_of(st, cargs[1])
            nd = max(nd, nd2) if nd is not None and nd2 is not None else (nd if nd2 is None else nd2)
            if fl in ("maximum", "minimum"):
                t0 = tag_join_add(eng, st, t0, eng.tag_of(st, cargs[1]), node, fl)
            if fl.startswith("logical") and es[1] < es[0]:
                es = (es[1], es[0]) + es[2:]
        e = mk("call", "numpy." + fl, es, kw_expr(eng, st, kwargs))
        if fl == "logical_not":
            n0 = ex.node(es[0])
            if n0[0] == "call" and n0[1] == "numpy.logical_not":
                e = n0[2][0]
        t = () if fl in BOOLF or fl in DIMLESS else t0
        ty = "bool" if fl in BOOLF else ("int" if fl in INTF else (ty0 if fl in KEEP else "num"))
        if fl in REDUCE or fl in ("allclose", "array_equal"):
            ax = cargs[1] if len(cargs) > 1 else kwargs.get("axis")
            if fl in ("allclose", "array_equal"):
                nd = 0
            elif ax is None or (isinstance(eng.conc(st, ax), C) and eng.conc(st, ax).v is None):
                nd = 0
            else:
                nd = nd - 1 if nd else None
        elif fl in ("unique",):
            nd = 1
        elif fl == "argwhere":
            nd = 2
        elif fl == "unravel_index":
            return [(st, X(e))]
        if fl in ("unique",) and kwargs:
            return [(st, X(e))]
        if nd is None and isinstance(cargs[0], (X, S)):
            return [(st, X(e, ty="bool" if fl in BOOLF else None))]
        if isinstance(cargs[0], U):
            if fl in KEEP:
                return [(st, U(cargs[0].mon, cargs[0].tn, cargs[0].disp, e, nd is None and cargs[0].arr))]
            return [(st, X(e))]
        r = res_arr_or_num(eng, st, e, t, nd, ty or "num")
        if isinstance(r, R) and ma is not None and fl not in BOOLF and fl not in REDUCE:
            st.heap[r.oids[0]] = st.heap[r.oids[0]].rep(ma=ma)
        return out_kw(eng, st, r, kwargs, node)
    if fl in ("fill_diagonal", "put", "copyto", "place", "putmask") and cargs:
        mutate(eng, st, cargs[0], node, "numpy." + fl, cargs[1:])
        return [(st, C(None))]
    if f == "random.shuffle" and cargs:
        mutate(eng, st, cargs[0], node, "numpy.random.shuffle", cargs[1:])
        return [(st, C(None))]
    if f.startswith("random."):
        return [(st, X(opaque(tag="random")))]
    if f in ("seterr", "errstate", "warnings.warn", "set_printoptions", "warnings.filterwarnings"):
        return [(st, X(opaque()))]
    if f in ("linalg.norm",) and cargs:
        e, t, nd, ma, ty = arrayify(eng, st, cargs[0])
        return [(st, N(mk("call", name, (e,), kw_expr(eng, st, kwargs)), t, "num"))] if nd == 1 else None
    if fl in ("int", "int8", "int16", "int32", "int64", "float", "float32", "float64", "float16", "uint8", "uint16",
              "uint32", "bool_", "bool"):
        if not cargs:
            return [(st, C(0))]
        return to_number(eng, st, cargs[0], fl, node)
    return None


def out_kw(eng, st, r, kwargs, node):
    out = kwargs.get("out")
    if out is not None:
        o = eng.conc(st, out)
        if all_of(st, o, Arr) and len(o.oids) == 1 and isinstance(r, R):
            h = st.heap[r.oids[0]]
            eng.set_arr(st, o.oids[0], h.expr, h.tag, node, "out= argument")
            return [(st, o)]
    return [(st, r)]


def mutate(eng, st, v, node, what, extra=()):
    v = eng.conc(st, v)
    if isinstance(v, R):
        for o in v.oids:
            h = st.heap[o]
            if isinstance(h, Arr):
                e = mk("call", "mut:" + what, (eng.arr_expr(st, o),) + tuple(eng.expr_of(st, x) for x in extra), ())
                eng.set_arr(st, o, e, node=node, what=what)
            elif isinstance(h, Lst):
                if h.owner:
                    eng.write(st, h.owner, node, what)
                st.heap[o] = list_summary(eng, st, h)
    elif isinstance(v, S):
        eng.write(st, v.key, node, what)
        st.binds[v.key] = eng.alloc(st, Arr(mk("call", "mut:" + what, (leaf(v.key),), ()), None, owner=v.key))


def np_array(eng, st, a, kwargs, fl, node):
    dt = kwargs.get("dtype")
    dtn = None
    if dt is not None:
        d = eng.conc(st, dt)
        dtn = d.name if isinstance(d, E) else None
    ty = "bool" if dtn in ("builtins.bool", "numpy.bool", "numpy.bool_") else None
    cp = kwargs.get("copy")
    cp = eng.conc(st, cp) if cp is not None else None
    nocopy = fl != "array" or (isinstance(cp, C) and cp.v is False)
    if isinstance(a, XM) and a.name == "@view":
        a = a.recv
    if all_of(st, a, Arr):
        if nocopy and len(a.oids) == 1:
            if any(st.heap[o].owner in st.types and not (st.types[st.heap[o].owner] & {"ndarray", "masked"})
                   for o in a.oids):
                return copy_arr(eng, st, a, ma=None)
            return eng.make_view(st, a.oids[0], ("same",), ndim=ndim_of(st, a), ty=ty)
        kw = {"ma": None}
        if ty:
            kw["ty"] = ty
        sub = kwargs.get("subok")
        r = copy_arr(eng, st, a, **kw)
        return r
    h = single(st, a, Lst)
    if h is not None or isinstance(a, T):
        items = a.items if isinstance(a, T) else h.items
        els = list(items) if items is not None else ([h.elem] if h.elem is not None else [])
        cels = [eng.conc(st, x) for x in els]
        if any(eng.class_of(st, x) is not None for x in cels):
            if h is not None:
                return eng.alloc(st, h.rep(owner=None, kind="objarr", lazy=None,
                                           lenx=h.lenx))
            return eng.new_list(st, items, kind="objarr")
        e, t, nd, ma, ty2 = arrayify(eng, st, a)
        if items is not None and not items:
            return eng.new_arr(st, const("[]"), ANY, ndim=1)
        if h is not None and h.items is None:
            el = cels[0] if cels else None
            nde = ndim_of(st, el) if el is not None else None
            e = mk("call", "listof", (eng.expr_of(st, el),), ()) if el is not None else opaque()
        if els and all(isinstance(x, X) for x in cels):
            nd = None
        return eng.new_arr(st, e, t, ndim=nd, ty=ty)
    if isinstance(a, (N, C)):
        e, t, nd, ma, ty2 = arrayify(eng, st, a)
        return eng.new_arr(st, eng.expr_of(st, a), t, ndim=0, ty=ty)
    if isinstance(a, U):
        return U(a.mon, a.tn, a.disp, a.expr, True)
    if isinstance(a, X):
        return eng.alloc(st, Arr(a.expr, None, ty=ty))
    if isinstance(a, S):
        if nocopy and st.types.get(a.key) is None:
            # may be the caller's own array
            st.types[a.key] = frozenset(["ndarray"])
            return np_array(eng, st, eng.conc(st, a), kwargs, fl, node)
        return eng.new_arr(st, leaf(a.key), None, ty=ty)
    return eng.new_arr(st, eng.expr_of(st, a), None, ty=ty)


def np_view(eng, st, fl, a, rest, kwargs, node):
    if not (all_of(st, a, Arr) and len(a.oids) == 1):
        e, t, nd, ma, ty = arrayify(eng, st, a)
        ps = tuple(eng.expr_of(st, x) for x in rest)
        if all_of(st, a, (Lst,)) or isinstance(a, T):
            if fl == "transpose" and not ps:
                e = mk_view("T", (), e)
                return [(st, eng.new_arr(st, e, t, ndim=nd))]
            return [(st, eng.new_arr(st, mk("call", "numpy." + fl, (e,) + ps, ()), t, ndim=None))]
        if isinstance(a, (N, C)) and fl == "real":
            return [(st, a)]
        if isinstance(a, U) and fl == "real":
            return [(st, a)]
        return [(st, X(mk("call", "numpy." + fl, (e,) + ps, ()), a.refs if isinstance(a, X) else ()))]
    o = a.oids[0]
    h = st.heap[o]
    nd = h.ndim
    ps = tuple(("e", eng.expr_of(st, x)) for x in rest) + tuple(("e", v) for k, v in kw_expr(eng, st, kwargs))
    if fl == "transpose" and not ps:
        return [(st, eng.make_view(st, o, ("view", "T", ()), ndim=nd))]
    if fl in ("flipud", "fliplr", "real"):
        return [(st, eng.make_view(st, o, ("view", fl, ()), ndim=nd))]
    if fl == "flip":
        ax = rest[0] if rest else kwargs.get("axis")
        ax = eng.conc(st, ax) if ax is not None else None
        if isinstance(ax, C) and ax.v in (0, 1) or (ax is None and nd == 1):
            return [(st, eng.make_view(st, o, ("view", "flipud" if ax is None or ax.v == 0 else "fliplr", ()),
                                       ndim=nd))]
    if fl == "rot90":
        return [(st, eng.make_view(st, o, ("view", "rot90", ps), ndim=nd))]
    if fl == "ravel":
        return [(st, eng.make_view(st, o, ("view", "ravel", ()), ndim=1))]
    if fl == "reshape":
        nd2 = None
        if rest:
            s0 = rest[0]
            if isinstance(s0, T):
                nd2 = len(s0.items)
            elif single(st, s0, Lst) is not None and single(st, s0, Lst).items is not None:
                nd2 = len(single(st, s0, Lst).items)
            elif len(rest) > 1:
                nd2 = len(rest)
            else:
                nd2 = 1
        return [(st, eng.make_view(st, o, ("view", "reshape", ps), ndim=nd2))]
    return [(st, eng.make_view(st, o, ("view", fl, ps), ndim=None))]


def np_concat(eng, st, fl, cargs, kwargs, node):
    if fl == "append":
        parts = list(cargs[:2])
        ax = cargs[2] if len(cargs) > 2 else kwargs.get("axis")
    else:
        s0 = cargs[0]
        ax = cargs[1] if len(cargs) > 1 else kwargs.get("axis")
        if isinstance(s0, T):
            parts = list(s0.items)
        elif single(st, s0, Lst) is not None and single(st, s0, Lst).items is not None:
            parts = list(single(st, s0, Lst).items)
        elif single(st, s0, Lst) is not None and single(st, s0, Lst).elem is not None:
            parts = [single(st, s0, Lst).elem]
        else:
            parts = [s0]
    parts = [eng.conc(st, p) for p in parts]
    # object lists
    if fl == "append" and any(all_of(st, p, Lst) and st.heap[p.oids[0]].kind == "objarr" for p in parts) or \
            any(eng.class_of(st, p) is not None for p in parts):
        el = None
        for p in parts:
            if all_of(st, p, Lst):
                its, e2, _ = iterate(eng, st, p, None)
                for x in (its or []) + ([e2] if e2 is not None and not (isinstance(e2, X)) else []):
                    el = x if el is None else eng.join_val(st, el, st, x, st)
            elif eng.class_of(st, p) is not None:
                el = p if el is None else eng.join_val(st, el, st, p, st)
        return [(st, eng.new_list(st, None, el, kind="objarr"))]
    t = None
    first = True
    es = []
    nds = []
    for p in parts:
        e, tp, nd, ma, ty = arrayify(eng, st, p)
        es.append(e)
        nds.append(nd)
        if fl in ("vstack", "column_stack", "dstack", "stack", "c_") and first is False and tags_conflict(t, tp):
            t = None
            continue
        t = tp if first else (tag_join_add(eng, st, t, tp, node, fl) if fl in ("append", "concatenate", "hstack",
                                                                                "r_") else
                              eng.join_tag(t, tp))
        first = False
    nd = None
    if nds and all(x is not None for x in nds):
        nd = max(nds)
        if fl in ("vstack", "column_stack", "dstack", "stack"):
            nd = max(2, nd)
        if fl == "append" and ax is None:
            nd = 1
    axe = (eng.expr_of(st, ax),) if ax is not None else ()
    return [(st, eng.new_arr(st, mk("call", "numpy." + ("concatenate" if fl in ("append", "hstack") and nd == 1 else fl),
                                    (mk("tup", *es),) + axe, ()), t, ndim=nd))]


def to_number(eng, st, v, kind, node):
    v = eng.conc(st, v)
    if isinstance(v, C) and isinstance(v.v, (int, float, bool)):
        try:
            return [(st, C(int(v.v) if kind.startswith(("int", "uint")) else
                           (bool(v.v) if kind.startswith("bool") else float(v.v))))]
        except (ValueError, OverflowError):
            return [(st, X(opaque()))]
    ty = "int" if kind.startswith(("int", "uint")) else ("bool" if kind.startswith("bool") else "float")
    if isinstance(v, N):
        if ty == "int" and v.ty == "int" or ty == "float":
            return [(st, N(v.expr, v.tag, ty))]
        return [(st, N(mk("call", ty, (v.expr,), ()), v.tag if ty != "bool" else (), ty))]
    if all_of(st, v, Arr):
        e, t, nd, ma, ty0 = arrayify(eng, st, v)
        return [(st, N(mk("call", ty, (e,), ()), t, ty))]
    if isinstance(v, U):
        r = as_number(eng, st, v, None)
        return [(st, r)]
    return [(st, N(mk("call", ty, (eng.expr_of(st, v),), ()), None, ty))]


# ---------------------------------------------------------------------------- builtins
def b_len(eng, st, args, kwargs, node):
    if not args:
        return None
    v = eng.conc(st, args[0])
    if isinstance(v, C) and isinstance(v.v, str):
        return [(st, C(len(v.v)))]
    if isinstance(v, T):
        return [(st, C(len(v.items)))]
    if isinstance(v, R) and len(v.oids) == 1:
        h = st.heap[v.oids[0]]
        if isinstance(h, Lst):
            if h.items is not None:
                return [(st, C(len(h.items)))]
            if h.lenx is not None:
                return [(st, N(h.lenx, (), "int"))]
        if isinstance(h, Dct) and not h.open:
            return [(st, C(len(h.items)))]
        if isinstance(h, Inst) and h.cls is not None:
            m = h.cls.lookup("__len__")
            from .prog import FuncInfo
            if isinstance(m, FuncInfo):
                return eng.call(st, F(m), [v], {}, node)
            if not h.cls.has_ext_base():
                eng.note("no-len", node, "%s objects have no length" % h.cls.name, st)
                eng.raise_(st, "TypeError", node)
                return []
        if isinstance(h, Arr):
            e = eng.arr_expr(st, v.oids[0])
            n = ex.node(e)
            if n[0] == "call" and n[1] == "range" and len(n[2]) == 1:
                return [(st, N(n[2][0], (), "int"))]
            if h.ndim == 2:
                return [(st, N(mk("call", "shape", (e, const(0)), ()), (), "int"))]
    return [(st, N(mk("call", "len", (eng.expr_of(st, v),), ()), (), "int"))]


def b_range(eng, st, args, kwargs, node):
    cs = [eng.conc(st, a) for a in args]
    if cs and all(isinstance(c, C) and isinstance(c.v, int) for c in cs):
        r = range(*[c.v for c in cs])
        if len(r) <= 8:
            return [(st, T([C(i) for i in r]))]
    es = tuple(eng.expr_of(st, a) for a in cs)
    if len(cs) == 2 and isinstance(cs[0], C) and cs[0].v == 0:
        es = es[1:]
    return [(st, eng.new_arr(st, mk("call", "range", es, ()), (), ndim=1, ty="int"))]


def b_enumerate(eng, st, args, kwargs, node):
    items, el, lx = iterate(eng, st, args[0], node)
    if items is not None:
        return [(st, eng.new_list(st, [T([C(i), x]) for i, x in enumerate(items)], kind="gen"))]
    ix = N(iter_index(node, None), (), "int")
    return [(st, eng.new_list(st, None, T([ix, el]), kind="gen", lenx=lx))]


def b_zip(eng, st, args, kwargs, node):
    its = [iterate(eng, st, a, node) for a in args]
    if its and all(i[0] is not None for i in its):
        n = min(len(i[0]) for i in its)
        return [(st, eng.new_list(st, [T([i[0][k] for i in its]) for k in range(n)], kind="gen"))]
    els = []
    for items, el, lx in its:
        if items is not None:
            el = items[0] if items else X(opaque())
            for x in items[1:]:
                el = eng.join_val(st, el, st, x, st)
        els.append(el)
    lxs = [i[2] for i in its if i[2] is not None]
    return [(st, eng.new_list(st, None, T(els), kind="gen", lenx=lxs[0] if lxs else None))]


def b_list(eng, st, args, kwargs, node, kind="list"):
    if not args:
        return [(st, eng.new_list(st, [], kind=kind))]
    v = eng.conc(st, args[0])
    if isinstance(v, T):
        return [(st, eng.new_list(st, v.items, kind=kind))]
    if all_of(st, v, Arr):
        return [(st, copy_arr(eng, st, v, kind="list"))]
    h = single(st, v, Lst)
    if h is not None:
        return [(st, eng.alloc(st, h.rep(owner=None, kind=kind, lazy=None)))]
    h = single(st, v, Dct)
    if h is not None and not h.open:
        return [(st, eng.new_list(st, list(h.items), kind=kind))]
    items, el, lx = iterate(eng, st, v, node)
    if items is not None:
        return [(st, eng.new_list(st, items, kind=kind))]
    return [(st, eng.new_list(st, None, el, kind=kind, lenx=lx))]


def b_tuple(eng, st, args, kwargs, node):
    if not args:
        return [(st, T([]))]
    v = eng.conc(st, args[0])
    if isinstance(v, T):
        return [(st, v)]
    h = single(st, v, Lst)
    if h is not None and h.items is not None:
        return [(st, T(h.items))]
    return b_list(eng, st, args, kwargs, node, "tuple")


def b_set(eng, st, args, kwargs, node):
    return b_list(eng, st, args, kwargs, node, "set")


def b_dict(eng, st, args, kwargs, node):
    kw = dict(kwargs)
    op = kw.pop("**", None) is not None
    base = {}
    if args:
        h = single(st, eng.conc(st, args[0]), Dct)
        if h is not None:
            base = dict(h.items)
            op = op or h.open
        else:
            op = True
    base.update({C(k): v for k, v in kw.items()})
    return [(st, eng.alloc(st, Dct(base, open=op)))]


def b_sorted(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    if all_of(st, v, Arr):
        e, t, nd, ma, ty = arrayify(eng, st, v)
        return [(st, eng.new_arr(st, mk("call", "numpy.sort", (e,), ()), t, ndim=nd, kind="list"))]
    items, el, lx = iterate(eng, st, v, node)
    for x in (items or []):
        el = x if el is None else eng.join_val(st, el, st, x, st)
    return [(st, eng.new_list(st, None, el, lenx=lx))]


def b_reversed(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    if isinstance(v, T):
        return [(st, T(v.items[::-1]))]
    h = single(st, v, Lst)
    if h is not None and h.items is not None:
        return [(st, eng.new_list(st, h.items[::-1], kind="gen"))]
    return b_sorted(eng, st, args, kwargs, node)


def b_minmax(fname):
    def f(eng, st, args, kwargs, node):
        cs = [eng.conc(st, a) for a in args]
        if len(cs) == 1:
            its, el, _ = iterate(eng, st, cs[0], node)
            if its is not None:
                cs = [eng.conc(st, x) for x in its]
            else:
                e, t, nd, ma, ty = arrayify(eng, st, cs[0])
                if isinstance(el, N):
                    return [(st, N(mk("call", "numpy." + fname, (e,), ()), el.tag, el.ty))]
                if isinstance(el, U):
                    return [(st, U(el.mon, el.tn, el.disp, mk("call", fname, (e,), ()), False))]
                return [(st, X(mk("call", "numpy." + fname, (e,), ())))]
        if cs and all(is_num_c(c) for c in cs):
            return [(st, C((min if fname == "min" else max)(c.v for c in cs)))]
        t = None
        for i, c in enumerate(cs):
            tc = eng.tag_of(st, c)
            t = tc if i == 0 else tag_join_add(eng, st, t, tc, node, fname)
        es = tuple(sorted(eng.expr_of(st, c) for c in cs))
        if all(isinstance(c, (N, C)) for c in cs):
            ints = all((isinstance(c, N) and c.ty == "int") or (isinstance(c, C) and isinstance(c.v, int)) for c in cs)
            return [(st, N(mk("call", fname, es, ()), t, "int" if ints else "num"))]
        return [(st, X(mk("call", fname, es, ())))]
    return f


def b_abs(eng, st, args, kwargs, node):
    return numpy_call(eng, st, "numpy.abs", args, kwargs, node)


def b_sum(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    if all_of(st, v, Arr):
        return numpy_call(eng, st, "numpy.sum", args, kwargs, node)
    return None


def b_num(kind):
    def f(eng, st, args, kwargs, node):
        if not args:
            return [(st, C({"int": 0, "float": 0.0, "bool": False}[kind]))]
        if kind == "bool":
            v = eng.conc(st, args[0])
            if isinstance(v, N) and v.ty == "bool":
                return [(st, v)]
            return [(s, C(b)) for s, b in eng.truth(st, args[0], node)]
        v = eng.conc(st, args[0])
        if isinstance(v, C) and isinstance(v.v, str):
            try:
                return [(st, C(int(v.v) if kind == "int" else float(v.v)))]
            except ValueError:
                eng.raise_(st, "ValueError", node)
                return []
        return to_number(eng, st, v, kind, node)
    return f


def b_str(eng, st, args, kwargs, node):
    if args:
        v = eng.conc(st, args[0])
        if isinstance(v, C):
            return [(st, C(str(v.v)))]
        if isinstance(v, S) and st.types.get(v.key) == frozenset(["str"]):
            return [(st, v)]
        return [(st, X(mk("call", "str", (eng.expr_of(st, v),), ()), ty="str"))]
    return [(st, C(""))]


def b_type(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    c = eng.class_of(st, v)
    if c is not None:
        return [(st, K(c))]
    if isinstance(v, C):
        return [(st, E("builtins." + type(v.v).__name__))]
    return [(st, X(mk("call", "type", (eng.expr_of(st, v),), ())))]


def b_hasattr(eng, st, args, kwargs, node):
    n = eng.conc(st, args[1])
    v = args[0]
    if isinstance(n, C) and isinstance(n.v, str):
        r = eng.has_attr(st, v, n.v)
        if r is not None:
            return [(st, C(r))]
    return [(st, N(mk("call", "hasattr", (eng.expr_of(st, v), eng.expr_of(st, n)), ()), (), "bool"))]


def b_getattr(eng, st, args, kwargs, node):
    n = eng.conc(st, args[1])
    if isinstance(n, C) and isinstance(n.v, str):
        if len(args) > 2:
            r = eng.has_attr(st, args[0], n.v)
            if r is False:
                return [(st, args[2])]
        return eng.get_attr(st, args[0], n.v, node)
    v = eng.conc(st, args[0])
    return [(st, X(opaque(ex.deps(eng.expr_of(st, v))), v.oids if isinstance(v, R) else ()))]


def b_setattr(eng, st, args, kwargs, node):
    n = eng.conc(st, args[1])
    if isinstance(n, C) and isinstance(n.v, str):
        return [(s, C(None)) for s in eng.set_attr(st, args[0], n.v, args[2], node)]
    v = eng.conc(st, args[0])
    if isinstance(v, R):
        for o in v.oids:
            own = getattr(st.heap[o], "owner", None)
            if own:
                eng.write(st, own, node, "setattr")
    return [(st, C(None))]


def b_anyall(fname):
    def f(eng, st, args, kwargs, node):
        v = eng.conc(st, args[0])
        if all_of(st, v, Arr):
            return numpy_call(eng, st, "numpy." + fname, args, kwargs, node)
        its, el, lx = iterate(eng, st, v, node)
        if its is not None:
            cs = [eng.conc(st, x) for x in its]
            if all(isinstance(c, C) for c in cs):
                return [(st, C((any if fname == "any" else all)(c.v for c in cs)))]
        return [(st, N(mk("call", fname, (eng.expr_of(st, v),), ()), (), "bool"))]
    return f


def b_map(eng, st, args, kwargs, node):
    its, el, lx = iterate(eng, st, args[1], node) if len(args) == 2 else (None, X(opaque()), None)
    vals = its if its is not None else [el]
    outs = []
    for v in vals[:6]:
        r = eng.call(st.fork(), args[0], [v], {}, node)
        if r:
            s2, x = r[0]
            for sl in State.__slots__:
                setattr(st, sl, getattr(s2, sl))
            outs.append(x)
    if its is not None and len(outs) == len(its):
        return [(st, eng.new_list(st, outs, kind="gen"))]
    return [(st, eng.new_list(st, None, outs[0] if outs else X(opaque()), kind="gen", lenx=lx))]


def b_slice(eng, st, args, kwargs, node):
    a = list(args)
    if len(a) == 1:
        a = [C(None), a[0], C(None)]
    while len(a) < 3:
        a.append(C(None))
    return [(st, XM(T(a), "@slice"))]


def b_round(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    if isinstance(v, C) and isinstance(v.v, (int, float)) and len(args) == 1:
        return [(st, C(round(v.v)))]
    if isinstance(v, N):
        return [(st, N(mk("call", "round", (v.expr,) + tuple(eng.expr_of(st, x) for x in args[1:]), ()), v.tag,
                       "int" if len(args) == 1 else v.ty))]
    return numpy_call(eng, st, "numpy.round", args, kwargs, node)


def b_none(eng, st, args, kwargs, node):
    return [(st, C(None))]


def b_callable(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0])
    if isinstance(v, (F, B, K)):
        return [(st, C(True))]
    if isinstance(v, (C, N, U, T)):
        return [(st, C(False))]
    return None


def b_iter(eng, st, args, kwargs, node):
    return [(st, args[0])]


def b_next(eng, st, args, kwargs, node):
    its, el, lx = iterate(eng, st, args[0], node)
    if its:
        return [(st, its[0])]
    return [(st, el if el is not None else X(opaque()))]


def b_isinstance(eng, st, args, kwargs, node):
    return [(s, C(b)) for s, b in eng.isinstance_(st, args[0], args[1], node)]


BUILTIN = {"len": b_len, "range": b_range, "xrange": b_range, "enumerate": b_enumerate, "zip": b_zip, "list": b_list,
           "tuple": b_tuple, "set": b_set, "frozenset": b_set, "dict": b_dict, "sorted": b_sorted,
           "reversed": b_reversed, "min": b_minmax("min"), "max": b_minmax("max"), "abs": b_abs, "sum": b_sum,
           "int": b_num("int"), "float": b_num("float"), "bool": b_num("bool"), "str": b_str, "type": b_type,
           "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "any": b_anyall("any"),
           "all": b_anyall("all"), "map": b_map, "slice": b_slice, "round": b_round, "print": b_none,
           "callable": b_callable, "iter": b_iter, "next": b_next, "isinstance": b_isinstance}


# ---------------------------------------------------------------------------- other libraries
def x_interp1d(eng, st, args, kwargs, node):
    a = list(args)
    for k in ("x", "y", "z"):
        if k in kwargs:
            a.append(kwargs[k])
    return [(st, XM(T(a), "@interp"))]


def x_filter(eng, st, args, kwargs, node):
    e, t, nd, ma, ty = arrayify(eng, st, args[0])
    es = tuple(eng.expr_of(st, a) for a in args)
    return [(st, eng.new_arr(st, mk("call", "filter", es, kw_expr(eng, st, kwargs)), t, ndim=nd))]


EXTRA = {}
for _n in ("scipy.interpolate.interp1d", "scipy.interpolate.RectBivariateSpline", "scipy.interpolate.interp2d",
           "scipy.interpolate.UnivariateSpline"):
    EXTRA[_n] = x_interp1d
for _n in ("scipy.ndimage.gaussian_filter", "scipy.ndimage.uniform_filter", "scipy.ndimage.median_filter",
           "scipy.ndimage.filters.gaussian_filter", "scipy.ndimage.filters.uniform_filter", "scipy.signal.filtfilt",
           "scipy.ndimage.gaussian_filter1d"):
    EXTRA[_n] = x_filter


def x_simps(eng, st, args, kwargs, node):
    return numpy_call(eng, st, "numpy.simps", args, kwargs, node)


EXTRA["scipy.integrate.simps"] = x_simps


# ---------------------------------------------------------------------------- methods of data values
STR_FOLD = ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "isdigit", "title",
            "capitalize")
NPM = {"sum", "mean", "min", "max", "std", "var", "any", "all", "argmin", "argmax", "argsort", "cumsum", "round", "clip",
       "dot", "repeat", "prod", "ptp", "searchsorted", "conj", "conjugate", "nonzero"}


def call_method(eng, st, recv, name, args, kwargs, node):
    recv = eng.conc(st, recv)
    es = lambda: tuple(eng.expr_of(st, a) for a in args)
    if name == "__getattribute__" and args:
        return b_getattr(eng, st, [recv, args[0]], {}, node)
    if name == "__setattr__" and len(args) == 2:
        return b_setattr(eng, st, [recv] + list(args), {}, node)
    if isinstance(recv, (K, SU)) and name == "__init__":
        return [(st, C(None))]
    if name == "@interp" or (isinstance(recv, XM) and recv.name == "@interp"):
        src = recv if isinstance(recv, T) else recv.recv
        return call_interp(eng, st, src, args, kwargs, node)
    # ------------------------------------------------ strings
    if isinstance(recv, C) and isinstance(recv.v, str):
        cs = [eng.conc(st, a) for a in args]
        if name in STR_FOLD and all(isinstance(c, C) for c in cs):
            try:
                return [(st, C(getattr(recv.v, name)(*[c.v for c in cs])))]
            except Exception:
                return [(st, X(opaque(), ty="str"))]
        if name == "format":
            kc = {k: eng.conc(st, v) for k, v in kwargs.items()}
            if all(isinstance(c, C) for c in cs) and all(isinstance(c, C) for c in kc.values()):
                try:
                    return [(st, C(recv.v.format(*[c.v for c in cs], **{k: c.v for k, c in kc.items()})))]
                except Exception:
                    return [(st, X(opaque(), ty="str"))]
            return [(st, X(mk("call", "fmt", (const(recv.v),) + es(), kw_expr(eng, st, kwargs)), ty="str"))]
        if name == "split" and all(isinstance(c, C) for c in cs):
            return [(st, eng.new_list(st, [C(x) for x in recv.v.split(*[c.v for c in cs])]))]
        if name in ("join", "zfill", "encode", "decode", "ljust", "rjust"):
            return [(st, X(mk("call", name, (const(recv.v),) + es(), ()), ty="str"))]
        return [(st, X(mk("call", "str." + name, (const(recv.v),) + es(), ())))]
    if isinstance(recv, S) and st.types.get(recv.key) == frozenset(["str"]) or isinstance(recv, X) and recv.ty == "str":
        ty = None if name in ("split", "startswith", "endswith", "find", "isdigit", "splitlines", "count", "index") \
            else "str"
        return [(st, X(mk("call", "str." + name, (eng.expr_of(st, recv),) + es(), ()), ty=ty))]
    # ------------------------------------------------ units
    if isinstance(recv, U):
        if name == "asNumber":
            to = eng.conc(st, args[0]) if args else (eng.conc(st, kwargs["other"]) if "other" in kwargs else None)
            return [(st, as_number(eng, st, recv, to))]
        if name in ("asUnit", "cast", "matchUnits"):
            to = eng.conc(st, args[0]) if args else None
            if name == "asUnit" and isinstance(to, U):
                return [(st, U(recv.mon, recv.tn, to.mon, mk("call", "asUnit", (eng.expr_of(st, recv),
                                                                               eng.expr_of(st, to)), ()), recv.arr))]
            return [(st, X(mk("call", name, (eng.expr_of(st, recv),) + es(), ()), ty="unum"))]
        if name in ("strUnit", "__str__"):
            return [(st, X(mk("call", "strUnit", (eng.expr_of(st, recv),), ()), ty="str"))]
        if name in ("copy", "normalize", "__deepcopy__"):
            return [(st, recv)]
        return [(st, X(mk("call", "unum." + name, (eng.expr_of(st, recv),) + es(), ())))]
    if isinstance(recv, X) and recv.ty == "unum":
        if name == "asNumber":
            return [(st, N(mk("call", "asNumber", (recv.expr,) + es(), ()), None, "num"))]
        if name == "strUnit":
            return [(st, X(mk("call", "strUnit", (recv.expr,), ()), ty="str"))]
        if name in ("asUnit", "copy"):
            return [(st, X(mk("call", name, (recv.expr,) + es(), ()), ty="unum"))]
    # ------------------------------------------------ containers
    if isinstance(recv, R):
        h = st.heap[recv.oids[0]]
        if len(recv.oids) == 1 and isinstance(h, Lst):
            r = list_method(eng, st, recv.oids[0], h, name, args, kwargs, node)
            if r is not None:
                return r
        elif len(recv.oids) == 1 and isinstance(h, Dct):
            r = dict_method(eng, st, recv.oids[0], h, name, args, kwargs, node)
            if r is not None:
                return r
        elif all_of(st, recv, Arr):
            r = arr_method(eng, st, recv, name, args, kwargs, node)
            if r is not None:
                return r
        elif len(recv.oids) > 1 and name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse"):
            for o in recv.oids:
                if isinstance(st.heap[o], Lst):
                    list_method(eng, st, o, st.heap[o], name, args, kwargs, node)
            return [(st, C(None))]
        if name in ("copy",) and all_of(st, recv, Lst):
            el = None
            for o in recv.oids:
                hs = list_summary(eng, st, st.heap[o])
                if hs.elem is not None:
                    el = hs.elem if el is None else eng.join_val(st, el, st, hs.elem, st)
            return [(st, eng.new_list(st, None, el))]
    if isinstance(recv, T):
        if name == "index" or name == "count":
            return [(st, N(mk("call", name, (eng.expr_of(st, recv),) + es(), ()), (), "int"))]
    if isinstance(recv, S):
        if name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "update", "fill",
                    "setdefault", "resize", "put", "itemset"):
            t = st.types.get(recv.key)
            if t is None or t & {"list", "ndarray", "masked", "dict"}:
                eng.write(st, recv.key, node, ".%s()" % name)
                st.binds[recv.key] = eng.alloc(st, Arr(mk("call", "mut:" + name, (leaf(recv.key),) + es(), ()), None,
                                                       owner=recv.key))
                return [(st, X(opaque(frozenset([recv.key]))))]
        if name == "copy":
            return [(st, X(leaf(recv.key)))]
    if isinstance(recv, X):
        if name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "update", "fill"):
            for o in recv.refs:
                hh = st.heap[o]
                own = eng.owner_of(st, o) if isinstance(hh, Arr) else getattr(hh, "owner", None)
                if own is not None and len(recv.refs) == 1 and isinstance(hh, Arr):
                    eng.set_arr(st, o, mk("call", "mut:" + name, (eng.arr_expr(st, o),) + es(), ()), node=node,
                                what=".%s()" % name)
            return [(st, X(opaque(ex.deps(recv.expr))))]
        if name == "copy":
            return [(st, X(recv.expr))]
        if name == "asNumber":
            return [(st, N(mk("call", "asNumber", (recv.expr,) + es(), ()), None, "num"))]
        if name == "format":
            return [(st, X(mk("call", "fmt", (recv.expr,) + es(), ()), ty="str"))]
        if name in NPM | {"flatten", "ravel", "reshape", "transpose", "astype"}:
            return [(st, X(mk("call", "numpy." + name, (recv.expr,) + es(), kw_expr(eng, st, kwargs)),
                           recv.refs if name in ("ravel", "reshape", "transpose") else ()))]
    if isinstance(recv, N):
        if name in ("copy", "conjugate", "item"):
            return [(st, recv)]
        if name in NPM:
            return [(st, recv)]
        if name == "asNumber":
            return [(st, recv)]
        if name == "astype":
            return [(st, recv)]
    return [(st, X(mk("call", "." + name, (eng.expr_of(st, recv),) + es(), kw_expr(eng, st, kwargs))))]


def call_interp(eng, st, src, args, kwargs, node):
    src_items = list(src.items)
    z = src_items[-1] if src_items else None
    t = eng.tag_of(st, z) if z is not None else None
    for s, a in zip(src_items[:-1], args):
        tag_join_add(eng, st, eng.tag_of(st, s), eng.tag_of(st, a), node, "interpolation")
    e = mk("call", "interp", tuple(eng.expr_of(st, x) for x in src_items) + tuple(eng.expr_of(st, a) for a in args),
           kw_expr(eng, st, kwargs))
    nds = [ndim_of(st, eng.conc(st, a)) for a in args]
    nd = None
    if nds and all(n == 0 for n in nds) and len(src_items) == 2:
        nd = 0
        return [(st, N(e, t, "num"))]
    if nds and nds[0] == 1 and len(src_items) == 2:
        nd = 1
    elif len(src_items) == 3:
        nd = 2
    return [(st, eng.new_arr(st, e, t, ndim=nd))]


def list_method(eng, st, o, h, name, args, kwargs, node):
    def w(what):
        if h.owner:
            eng.write(st, h.owner, node, what)
    if name == "append" and args:
        w("append")
        if h.items is not None and len(h.items) < 12:
            st.heap[o] = h.rep(items=h.items + (args[0],), lazy=None)
        else:
            hs = list_summary(eng, st, h)
            el = args[0] if hs.elem is None else eng.join_val(st, hs.elem, st, args[0], st)
            st.heap[o] = hs.rep(elem=el)
        return [(st, C(None))]
    if name in ("extend",) and args:
        extend_list(eng, st, o, eng.conc(st, args[0]), node)
        return [(st, C(None))]
    if name in ("insert",) and len(args) > 1:
        w("insert")
        i = eng.conc(st, args[0])
        if h.items is not None and isinstance(i, C) and isinstance(i.v, int):
            l = list(h.items)
            l.insert(i.v, args[1])
            st.heap[o] = h.rep(items=tuple(l), lazy=None)
        else:
            hs = list_summary(eng, st, h)
            el = args[1] if hs.elem is None else eng.join_val(st, hs.elem, st, args[1], st)
            st.heap[o] = hs.rep(elem=el)
        return [(st, C(None))]
    if name in ("remove", "reverse", "sort", "clear", "discard", "add", "update"):
        w(name)
        if name == "clear":
            st.heap[o] = h.rep(items=(), elem=None, lazy=None)
        elif name == "reverse" and h.items is not None:
            st.heap[o] = h.rep(items=h.items[::-1], lazy=None)
        elif name == "add" and args:
            hs = list_summary(eng, st, h)
            el = args[0] if hs.elem is None else eng.join_val(st, hs.elem, st, args[0], st)
            st.heap[o] = hs.rep(elem=el)
        else:
            st.heap[o] = list_summary(eng, st, h)
        return [(st, C(None))]
    if name == "pop":
        w("pop")
        i = eng.conc(st, args[0]) if args else C(-1)
        if h.items is not None and isinstance(i, C) and isinstance(i.v, int):
            if not (-len(h.items) <= i.v < len(h.items)):
                eng.raise_(st, "IndexError", node)
                return []
            l = list(h.items)
            v = l.pop(i.v)
            st.heap[o] = h.rep(items=tuple(l), lazy=None)
            return [(st, v)]
        hs = list_summary(eng, st, h)
        st.heap[o] = hs
        return [(st, hs.elem if hs.elem is not None else X(opaque()))]
    if name == "copy":
        return [(st, eng.alloc(st, h.rep(owner=None)))]
    if name in ("index", "count"):
        return [(st, N(mk("call", name, (eng.expr_of(st, R((o,))),) + tuple(eng.expr_of(st, a) for a in args), ()), (),
                       "int"))]
    if name in ("flatten", "ravel", "tolist"):
        return [(st, eng.alloc(st, h.rep(owner=None)))]
    if name in ("transpose",):
        return [(st, R((o,)))]
    if name == "format":
        return [(st, X(opaque(), ty="str"))]
    return None


def dict_method(eng, st, o, h, name, args, kwargs, node):
    k = eng.conc(st, args[0]) if args else None

    def w(what):
        if h.owner:
            eng.write(st, h.owner, node, what)
    if name == "keys" or name == "__iter__":
        if not h.open:
            return [(st, eng.new_list(st, list(h.items)))]
        return [(st, X(opaque(frozenset([h.owner]) if h.owner else frozenset())))]
    if name == "values":
        if not h.open:
            return [(st, eng.new_list(st, list(h.items.values())))]
        return [(st, X(opaque()))]
    if name == "items":
        if not h.open:
            return [(st, eng.new_list(st, [T([a, b]) for a, b in h.items.items()]))]
        return [(st, X(opaque()))]
    if name == "get" and args:
        if isinstance(k, C) and k in h.items:
            return [(st, h.items[k])]
        if isinstance(k, C) and not h.open:
            return [(st, args[1] if len(args) > 1 else C(None))]
        return [(st, X(opaque()))]
    if name == "pop" and args:
        w("pop")
        if isinstance(k, C) and k in h.items:
            v = h.items[k]
            d = dict(h.items)
            del d[k]
            st.heap[o] = h.rep(items=d)
            return [(st, v)]
        if isinstance(k, C) and not h.open:
            if len(args) > 1:
                return [(st, args[1])]
            eng.raise_(st, "KeyError", node)
            return []
        return [(st, X(opaque()))]
    if name == "update":
        w("update")
        d = dict(h.items)
        op = h.open
        if args:
            h2 = single(st, k, Dct)
            if h2 is not None:
                d.update(h2.items)
                op = op or h2.open
            else:
                op = True
        for kk, v in kwargs.items():
            d[C(kk)] = v
        st.heap[o] = h.rep(items=d, open=op)
        return [(st, C(None))]
    if name == "setdefault" and args:
        w("setdefault")
        if isinstance(k, C):
            if k in h.items:
                return [(st, h.items[k])]
            d = dict(h.items)
            d[k] = args[1] if len(args) > 1 else C(None)
            st.heap[o] = h.rep(items=d)
            return [(st, d[k])]
    if name == "copy":
        return [(st, eng.alloc(st, h.rep(owner=None)))]
    if name == "clear":
        w("clear")
        st.heap[o] = h.rep(items={}, open=False)
        return [(st, C(None))]
    return None


def arr_method(eng, st, recv, name, args, kwargs, node):
    if name == "copy":
        return [(st, copy_arr(eng, st, recv))]
    if name == "astype":
        d = eng.conc(st, args[0]) if args else None
        ty = None
        if isinstance(d, E) and d.name in ("builtins.bool", "numpy.bool", "numpy.bool_"):
            ty = "bool"
        r = copy_arr(eng, st, recv)
        if ty:
            st.heap[r.oids[0]] = st.heap[r.oids[0]].rep(ty=ty)
        return [(st, r)]
    if name in ("transpose", "ravel", "reshape", "squeeze", "swapaxes"):
        if len(recv.oids) == 1:
            cargs = [eng.conc(st, a) for a in args]
            return np_view(eng, st, name, recv, cargs, kwargs, node)
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, eng.new_arr(st, mk("call", "numpy." + name, (e,) + tuple(eng.expr_of(st, a) for a in args), ()), t,
                                 ndim=nd))]
    if name == "flatten":
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, eng.new_arr(st, mk_view("ravel", (), e), t, ndim=1, ty=ty,
                                 ma=mk_view("ravel", (), ma) if ma is not None else None))]
    if name in ("tolist",):
        return [(st, copy_arr(eng, st, recv, kind="list"))]
    if name == "compressed":
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, eng.new_arr(st, mk("call", "compressed", (e,), ()), t, ndim=1))]
    if name == "filled":
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        if ma is not None and args:
            return [(st, eng.new_arr(st, mk_store(e, (("a", ma),), eng.expr_of(st, args[0])), t, ndim=nd))]
        return [(st, eng.new_arr(st, mk("call", "filled", (e,), ()), t, ndim=nd))]
    if name in ("sort", "fill", "resize", "put", "itemset", "partition", "append", "extend", "insert", "remove",
                "reverse", "clear", "setflags"):
        if name == "setflags":
            return [(st, C(None))]
        for o in recv.oids:
            e = mk("call", "mut:" + name, (eng.arr_expr(st, o),) + tuple(eng.expr_of(st, a) for a in args), ())
            if name == "fill" and args:
                e = mk("store", eng.arr_expr(st, o), (("s", None, None, None),), eng.expr_of(st, args[0]))
            eng.set_arr(st, o, e if len(recv.oids) == 1 else phi([eng.arr_expr(st, o), e]), node=node,
                        what=".%s()" % name)
        return [(st, C(None))]
    if name == "pop":
        for o in recv.oids:
            eng.set_arr(st, o, mk("call", "mut:pop", (eng.arr_expr(st, o),), ()), node=node, what=".pop()")
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, N(mk("call", "popped", (e,), ()), t))]
    if name in NPM:
        return numpy_call(eng, st, "numpy." + name, [recv] + list(args), kwargs, node)
    if name == "item":
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, N(mk("call", "item", (e,), ()), t))]
    if name == "index":
        e, t, nd, ma, ty = arrayify(eng, st, recv)
        return [(st, N(mk("call", "index", (e,) + tuple(eng.expr_of(st, a) for a in args), ()), (), "int"))]
    if name == "view":
        return [(st, eng.make_view(st, recv.oids[0], ("same",), ndim=ndim_of(st, recv)))]
    return None


# ---------------------------------------------------------------------------- repository functions with a model
def m_make_unit(eng, st, args, kwargs, node):
    v = eng.conc(st, args[0]) if args else (eng.conc(st, kwargs["string"]) if "string" in kwargs else None)
    if v is None:
        return None
    if isinstance(v, C):
        if isinstance(v.v, str):
            if v.v.strip() in ("", "1"):
                return [(st, U((), (), None, const(1)))]
            return [(st, U(ex.mono(("u", "make_unit:" + v.v, None)), (), None,
                           mk("call", "make_unit", (const(v.v),), ())))]
        return None
    if isinstance(v, U):
        return [(st, v)]
    if isinstance(v, S):
        base = v.key.split(":")[-1].split(".")[-1]
        return [(st, U(ex.mono(("u", v.key, eng.unit_role(base))), (), None, leaf(v.key)))]
    if isinstance(v, X):
        return [(st, U(ex.mono(("u", "x%d" % v.expr, None)), (), None, v.expr))]
    return None


REPO_MODELS = {"utils.units.make_unit": m_make_unit}
