"""Exit-state rules on the provenance expressions of coordinates, data and masks: C06 (masks), C07 (alignment), C08 (x/y)."""
import re
from .values import *
from . import expr as ex
from .expr import node, deps, leaf
from .rules import finding, short, role_of_entry, public_path
from .rules2 import result_roots, data_objects, RULES2

# attribute suffix -> (role, axes of the array in terms of the coordinates)
DATA = {"values": ("xy",), "comp_x": ("xy",), "comp_y": ("xy",), "mask": ("xy",), "axe_x": ("x",), "axe_y": ("y",)}
FIELD = ("ScalarField", "VectorField")
UNIT = {"numpy.abs", "numpy.absolute", "abs", "numpy.sqrt", "numpy.square", "numpy.sin", "numpy.cos", "numpy.tan", "numpy.exp",
        "numpy.log", "numpy.power", "numpy.logical_or", "numpy.logical_and", "numpy.logical_not", "numpy.isnan", "numpy.isinf",
        "numpy.array", "numpy.asarray", "numpy.copy", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide",
        "numpy.true_divide", "numpy.real", "numpy.angle", "numpy.arctan2", "numpy.arctan", "numpy.arccos", "numpy.arcsin",
        "numpy.maximum", "numpy.minimum", "numpy.where", "numpy.mod", "numpy.sign", "numpy.round", "numpy.logical_xor",
        "numpy.bitwise_or", "numpy.bitwise_and", "numpy.float", "float", "astype", "copy", "numpy.nan_to_num", "numpy.floor"}


def nm(n):
    return str(n[1])


def pointwise_call(name):
    return name in UNIT or "numpy." + name in UNIT or name.startswith("astype")


def suffix(path):
    return path.rsplit(".", 1)[-1].rsplit("__", 1)[-1]


def owner(path):
    return path.rsplit(".", 1)[0] if "." in path else ""


def attr_expr(eng, st, h, name):
    """expression of the attribute ending in __name (or name itself)"""
    for k, v in h.attrs.items():
        if k == name or k.endswith("__" + name) and k.startswith("_"):
            try:
                return eng.expr_of(st, v)
            except Exception:
                return None
    if h.lazy is not None and h.cls is not None:
        for q in eng.schema.attr.get(h.cls.qual) or ():
            if q == name or q.endswith("__" + name):
                return leaf(h.lazy + "." + q)
    return None


# ---------------------------------------------------------------------------- pointwise sources
def pw(i, out, seen):
    """leaves i is computed from point by point"""
    if i in seen:
        return
    seen.add(i)
    n = node(i)
    op = n[0]
    if op == "in":
        out.add(n[1])
    elif op in ("bin", "cmp"):
        pw(n[2], out, seen)
        pw(n[3], out, seen)
    elif op == "un":
        pw(n[2], out, seen)
    elif op == "phi":
        for x in n[1:]:
            pw(x, out, seen)
    elif op == "idx":
        if all(d[0] != "i" for d in n[2]):
            pw(n[1], out, seen)
    elif op == "view":
        pw(n[3], out, seen)
    elif op == "store":
        pw(n[1], out, seen)
        pw(n[3], out, seen)
    elif op == "call":
        if nm(n) == "ite":
            for x in n[2][1:]:
                pw(x, out, seen)
        elif pointwise_call(nm(n)):
            for x in n[2]:
                pw(x, out, seen)


def sources(i):
    out = set()
    pw(i, out, set())
    return out


# ---------------------------------------------------------------------------- C06
YES, NO, MAYBE = 1, 0, None


def nan_at(i, m, depth=0):
    """is expression i NaN wherever mask leaf m is set"""
    n = node(i)
    op = n[0]
    if depth > 40:
        return MAYBE
    if op == "in":
        # masked points of the stored data of the same object: the accessors put NaN there for floating point data
        return NO if owner(n[1]) != owner(m) else MAYBE
    if op == "const":
        return YES if n[2] != n[2] else NO
    if op == "ext":
        return YES if n[1].lower().endswith("nan") else NO if n[1].rsplit(".", 1)[-1] in ("pi", "e", "inf") else MAYBE
    if op == "bin":
        a, b = nan_at(n[2], m, depth + 1), nan_at(n[3], m, depth + 1)
        if YES in (a, b) and n[1] != "**":
            return YES
        return NO if a is NO and b is NO else MAYBE
    if op == "un":
        return nan_at(n[2], m, depth + 1)
    if op == "store":
        if covers_idx(n[2], m, depth + 1) is YES:
            return nan_at(n[3], m, depth + 1)
        a = nan_at(n[1], m, depth + 1)
        if len(n[2]) == 1 and n[2][0][0] == "a" and avoids(n[2][0][1], m, depth + 1):
            return a
        return a if a == nan_at(n[3], m, depth + 1) else MAYBE
    if op == "idx":
        return nan_at(n[1], m, depth + 1)
    if op == "view":
        return nan_at(n[3], m, depth + 1)
    if op == "phi":
        r = {nan_at(x, m, depth + 1) for x in n[1:]}
        return r.pop() if len(r) == 1 else MAYBE
    if op == "call" and nm(n).rsplit(".", 1)[-1] in ("zeros", "ones", "zeros_like", "ones_like"):
        return NO
    if m not in deps(i) and not any(owner(d) == owner(m) for d in deps(i)):
        return NO
    return MAYBE


def avoids(i, m, depth):
    """is the selection i certainly false wherever mask leaf m is set"""
    n = node(i)
    if depth > 40:
        return False
    if n[0] == "un" and n[1] in ("~", "not") or n[0] == "call" and nm(n).endswith("logical_not") and n[2]:
        return covers(n[2] if n[0] == "un" else n[2][0], m, depth + 1) is YES
    if n[0] == "call" and nm(n).endswith("logical_and"):
        return any(avoids(x, m, depth + 1) for x in n[2])
    if n[0] == "bin" and n[1] in ("&", "*"):
        return avoids(n[2], m, depth + 1) or avoids(n[3], m, depth + 1)
    return False


def covers_idx(desc, m, depth):
    if len(desc) == 1 and desc[0][0] == "a":
        return covers(desc[0][1], m, depth)
    return MAYBE


def covers(i, m, depth=0):
    """is the mask expression i true wherever mask leaf m is (up to the same selection of points)"""
    n = node(i)
    op = n[0]
    if depth > 40:
        return MAYBE
    if op == "in":
        return YES if n[1] == m else NO if suffix(n[1]) == "mask" else MAYBE
    if op == "const":
        return YES if n[2] is True else NO if n[2] is False else MAYBE
    if op in ("bin", "call") and (op == "bin" and n[1] in ("|", "+") or op == "call" and nm(n).endswith("logical_or")):
        ks = n[2:4] if op == "bin" else n[2]
        r = [covers(x, m, depth + 1) for x in ks]
        return YES if YES in r else NO if all(x is NO for x in r) else MAYBE
    if op in ("bin", "call") and (op == "bin" and n[1] in ("&", "*") or op == "call" and nm(n).endswith("logical_and")):
        ks = n[2:4] if op == "bin" else n[2]
        r = [covers(x, m, depth + 1) for x in ks]
        return YES if all(x is YES for x in r) else NO if NO in r else MAYBE
    if op == "idx":
        return covers(n[1], m, depth + 1)
    if op == "view":
        return covers(n[3], m, depth + 1)
    if op == "phi":
        r = [covers(x, m, depth + 1) for x in n[1:]]
        return NO if NO in r else YES if all(x is YES for x in r) else MAYBE
    if op == "store":
        v = node(n[3])
        if len(n[2]) and all(is_full(d) for d in n[2]):
            return covers(n[3], m, depth + 1)
        if v[0] == "const" and v[2] is True:
            a, b = covers(n[1], m, depth + 1), covers_idx(n[2], m, depth + 1)
            return YES if YES in (a, b) else NO if a is NO and b is NO else MAYBE
        return MAYBE
    if op == "call":
        f = nm(n).rsplit(".", 1)[-1]
        if f == "ite":
            r = [covers(x, m, depth + 1) for x in n[2][1:]]
            return NO if NO in r else YES if all(x is YES for x in r) else MAYBE
        if f in ("isnan",) and n[2]:
            return nan_at(n[2][0], m, depth + 1)
        if f in ("array", "asarray", "copy", "astype", "bool") and n[2]:
            return covers(n[2][0], m, depth + 1)
        if f in ("zeros", "zeros_like"):
            return NO
    if not any(owner(d) == owner(m) for d in deps(i)):
        return NO
    return MAYBE


FILLS = re.compile(r"fill|mirror|extend|extrapol|interpol|evenly|augment|import|__init__|unmask|remove_mask")
MASKED = {"ScalarField": ("values",), "VectorField": ("comp_x", "comp_y"), "Profile": ("y",)}


def nan_free(st):
    """arrays this path has found to hold no NaN"""
    out = []
    for k, v in st.assume.items():
        if v is not False or not isinstance(k, int):
            continue
        n = node(k)
        if n[0] == "call" and n[2]:
            f = nm(n).rsplit(".", 1)[-1]
            g = node(n[2][0])
            if g[0] == "call" and g[2] and (f, nm(g).rsplit(".", 1)[-1]) in (("isnan", "sum"), ("any", "isnan"), ("isnan", "mean"),
                                                                            ("isnan", "max"), ("isnan", "min")):
                out.append(g[2][0])
    return out


def rule_c06(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role in ("internal", "setter", "init") or FILLS.search(e.fi.name):
        return []
    for x in exits:
        if x.kind != "return":
            continue
        st = x.st
        clean = nan_free(st)
        for base, v in result_roots(eng, e, x):
            for p, o, h in data_objects(eng, st, v, base):
                comps = MASKED.get(h.cls.name)
                if not comps:
                    continue
                mx = attr_expr(eng, st, h, "mask")
                if mx is None:
                    continue
                for c in comps:
                    dx = attr_expr(eng, st, h, c)
                    if dx is None or node(dx)[0] == "in":
                        continue
                    for lf in sources(dx):
                        if suffix(lf) not in ("values", "comp_x", "comp_y", "y") or suffix(lf) == "y" and "_Profile" not in lf:
                            continue
                        m = mask_leaf(lf)
                        stats["C06.sources"] = stats.get("C06.sources", 0) + 1
                        if covers(mx, m) is NO and not any(nan_at(v, m) is not NO for v in clean):
                            pp = public_path(eng, p)
                            key = "%s|%s.%s|%s" % (short(e.fi.qual), pp, c, public_path(eng, lf))
                            if key not in out:
                                out[key] = finding(
                                    "C06", "mask-lost", e, "%s: %s.%s is computed from %s but points masked there are not masked in "
                                    "the result (mask: %s)" % (e.name, pp, c, public_path(eng, lf), ex.show(mx)[:160]), key,
                                    e.fi.module.rel, e.fi.lineno, e.fi.qual, {"trail": list(st.trail[-10:]), "numf": st.numf})
    return list(out.values())


def mask_leaf(lf):
    o, a = lf.rsplit(".", 1)
    i = a.rfind("__")
    return o + "." + (a[:i + 2] if i >= 0 else "") + "mask"


RULES2.append(rule_c06)


# ---------------------------------------------------------------------------- C07
UNKNOWN = "?"
FLIP = ("s", None, None, ex.const(-1))


def merge(a, b):
    if a == UNKNOWN or b == UNKNOWN:
        return UNKNOWN
    r = dict(a)
    for k, c in b.items():
        if k in r and r[k] != c:
            return UNKNOWN
        r[k] = c
    return r


def is_const(i, v):
    n = node(i)
    return n[0] == "const" and n[2] == v


def norm_slice(d):
    """[0:], [::1] are the whole axis; a bound that depends on a join of paths is not comparable"""
    if d[0] != "s":
        return d
    lo, hi, sp = d[1:4]
    if sp is not None and is_const(sp, 1):
        sp = None
    if lo is not None and is_const(lo, 0) and sp is None:
        lo = None
    return ("s", lo, hi, sp)


def is_full(d):
    return d[0] == "s" and norm_slice(d)[1:] == (None, None, None)


def joined(d):
    for x in d[1:]:
        if isinstance(x, int) and not isinstance(x, bool):
            n = node(x)
            if n[0] == "phi" or n[0] == "call" and nm(n) == "ite":
                return True
    return False


def sel(i, axis, nd, depth=0):
    """{object: selections applied along `axis`} for an array expression of nd dimensions; UNKNOWN if not understood"""
    n = node(i)
    op = n[0]
    if depth > 40:
        return UNKNOWN
    if op == "in":
        s = suffix(n[1])
        if s in ("values", "comp_x", "comp_y", "mask"):
            return {owner(n[1]): ()} if nd == 2 else UNKNOWN
        if s in ("axe_x", "axe_y"):
            return {owner(n[1]): ()} if nd == 1 else UNKNOWN
        if s in ("x", "y") and "_Profile__" in n[1]:
            return {owner(n[1]): ()} if nd == 1 else UNKNOWN
        return {} if s.startswith("unit") else UNKNOWN
    if op in ("const", "ext"):
        return {}
    if op in ("bin", "cmp"):
        return merge(sel(n[2], axis, nd, depth + 1), sel(n[3], axis, nd, depth + 1))
    if op == "un":
        return sel(n[2], axis, nd, depth + 1)
    if op == "phi":
        rs = [sel(x, axis, nd, depth + 1) for x in n[1:]]
        return rs[0] if rs and all(r == rs[0] for r in rs) else UNKNOWN
    if op == "store":
        return sel(n[1], axis, nd, depth + 1)
    if op == "view":
        if n[1] == "T" and nd == 2 and not n[2]:
            return sel(n[3], 1 - axis, nd, depth + 1)
        if n[1] in ("same", "real") or (n[1], axis) in (("flipud", 1), ("fliplr", 0)) and nd == 2:
            return sel(n[3], axis, nd, depth + 1)
        if (n[1], axis) in (("flipud", 0), ("fliplr", 1)):
            b = sel(n[3], axis, nd, depth + 1)
            return b if b == UNKNOWN else {k: c + (FLIP,) for k, c in b.items()}
        return UNKNOWN
    if op == "idx":
        desc = n[2]
        if any(d[0] not in ("s", "a") for d in desc):
            return UNKNOWN
        if len(desc) > nd:
            return UNKNOWN
        if nd == 2 and len(desc) == 1 and desc[0][0] == "a":
            return UNKNOWN
        if sum(1 for d in desc if d[0] == "a") > 1:
            return UNKNOWN
        b = sel(n[1], axis, nd, depth + 1)
        if b == UNKNOWN or axis >= len(desc) or is_full(desc[axis]):
            return b
        if desc[axis][0] == "s" and joined(("s", desc[axis][3])):
            return UNKNOWN
        return {k: c + (norm_slice(desc[axis]),) for k, c in b.items()}
    if op == "call":
        f = nm(n)
        if f == "ite":
            rs = [sel(x, axis, nd, depth + 1) for x in n[2][1:]]
            return rs[0] if rs and all(r == rs[0] for r in rs) else UNKNOWN
        if f.rsplit(".", 1)[-1] == "asNumber":
            return {}
        if pointwise_call(f) and f.rsplit(".", 1)[-1] != "where":
            r = {}
            for x in n[2]:
                r = merge(r, sel(x, axis, nd, depth + 1))
            return r
    return UNKNOWN


MOVES = {"rot90", "flip", "fliplr", "flipud", "roll", "swapaxes", "transpose", "moveaxis", "rollaxis", "take", "repeat", "tile"}


def moves(i, depth=0):
    """{object: displacements of points applied to its two-dimensional data}; UNKNOWN if not understood"""
    n = node(i)
    op = n[0]
    if depth > 40:
        return UNKNOWN
    if op == "in":
        s = suffix(n[1])
        if s in ("values", "comp_x", "comp_y", "mask"):
            return {owner(n[1]): ()}
        return {} if s.startswith("unit") else UNKNOWN
    if op in ("const", "ext"):
        return {}
    if op in ("bin", "cmp"):
        return merge(moves(n[2], depth + 1), moves(n[3], depth + 1))
    if op == "un":
        return moves(n[2], depth + 1)
    if op == "phi":
        rs = [moves(x, depth + 1) for x in n[1:]]
        return rs[0] if rs and all(r == rs[0] for r in rs) else UNKNOWN
    if op == "store":
        return moves(n[1], depth + 1)
    more = b = None
    if op == "view":
        b = moves(n[3], depth + 1)
        if n[1] not in ("same", "real"):
            more = ("v",) + tuple(n[1:3])
    elif op == "idx":
        b = moves(n[1], depth + 1)
        if not all(is_full(d) for d in n[2]):
            d = list(n[2])
            while d and is_full(d[-1]):
                d.pop()
            more = ("i",) + tuple(d)
    elif op == "call":
        f = nm(n)
        if f == "ite":
            rs = [moves(x, depth + 1) for x in n[2][1:]]
            return rs[0] if rs and all(r == rs[0] for r in rs) else UNKNOWN
        last = f.rsplit(".", 1)[-1]
        if last in MOVES and n[2]:
            b = moves(n[2][0], depth + 1)
            more = ("c", last) + tuple(n[2][1:]) + tuple(n[3:])
        elif last == "asNumber":
            return {}
        elif pointwise_call(f) and last != "where":
            r = {}
            for x in n[2]:
                r = merge(r, moves(x, depth + 1))
            return r
    if b is None or b == UNKNOWN:
        return UNKNOWN
    return {k: c + (more,) for k, c in b.items()} if more else b


# object class -> (attribute, dimensions, {coordinate: axis})
PARTS = {"ScalarField": (("axe_x", 1, {"x": 0}), ("axe_y", 1, {"y": 0}), ("values", 2, {"x": 0, "y": 1}), ("mask", 2, {"x": 0, "y": 1})),
         "VectorField": (("axe_x", 1, {"x": 0}), ("axe_y", 1, {"y": 0}), ("comp_x", 2, {"x": 0, "y": 1}), ("comp_y", 2, {"x": 0, "y": 1}),
                         ("mask", 2, {"x": 0, "y": 1})),
         "Profile": (("x", 1, {"x": 0}), ("y", 1, {"x": 0}), ("mask", 1, {"x": 0}))}


def show_chain(c):
    def one(d):
        if d[0] in ("s", "a", "i") and not (d[0] == "i" and len(d) > 1 and isinstance(d[1], tuple)):
            return "[%s]" % ex.show_idx((d,))
        return "[%s]" % ex.show_idx(d[1:]) if d[0] == "i" else "." + str(d[1]) + "(" + ", ".join(
            ex.show(x) if isinstance(x, int) else str(x) for x in d[2:]) + ")"
    return "".join(one(d) for d in c)[:120] or "everything"


def differs(a, b):
    """two sequences of selections that certainly differ: one goes on where the other stops, or the same number of
    selections of the same kinds with other bounds"""
    if len(a) > len(b):
        a, b = b, a
    if len(a) < len(b):
        return b[:len(a)] == a
    return [d[0] for d in a] == [d[0] for d in b]


def displaced(a, b):
    """two sequences of displacements that certainly differ: a displacement absent from one of them, or the same
    displacements with other arguments"""
    def big(c):
        return any(m[0] == "c" or m[0] == "v" and m[1] not in ("T", "flipud", "fliplr") for m in c)
    if not big(a) and not big(b):
        return False
    if not a or not b:
        return True
    return [m[:2] if m[0] != "i" else "i" for m in a] == [m[:2] if m[0] != "i" else "i" for m in b]


POINTWISE = {"xy", "v", "orientations"}


def psel(i, depth=0):
    """{point set: selections applied to its points} for an array with one row per point"""
    n = node(i)
    op = n[0]
    if depth > 40:
        return UNKNOWN
    if op == "in":
        return {owner(n[1]): ()} if suffix(n[1]) in POINTWISE else {} if suffix(n[1]).startswith("unit") else UNKNOWN
    if op in ("const", "ext"):
        return {}
    if op in ("bin", "cmp"):
        return merge(psel(n[2], depth + 1), psel(n[3], depth + 1))
    if op == "un":
        return psel(n[2], depth + 1)
    if op == "store":
        return psel(n[1], depth + 1)
    if op == "view" and n[1] in ("same", "real"):
        return psel(n[3], depth + 1)
    if op == "view" and n[1] == "flipud":
        b = psel(n[3], depth + 1)
        return b if b == UNKNOWN else {k: c + (FLIP,) for k, c in b.items()}
    if op == "phi" or op == "call" and nm(n) == "ite":
        rs = [psel(x, depth + 1) for x in (n[1:] if op == "phi" else n[2][1:])]
        return rs[0] if rs and all(r == rs[0] for r in rs) else UNKNOWN
    if op == "idx":
        if not n[2] or n[2][0][0] not in ("s", "a") or any(d[0] == "a" for d in n[2][1:]) or joined(n[2][0]):
            return UNKNOWN
        b = psel(n[1], depth + 1)
        if b == UNKNOWN or is_full(n[2][0]):
            return b
        return {k: c + (norm_slice(n[2][0]),) for k, c in b.items()}
    if op == "call" and pointwise_call(nm(n)) and not nm(n).endswith("where"):
        r = {}
        for x in n[2]:
            r = merge(r, psel(x, depth + 1))
        return r
    return UNKNOWN


def tested(st, path):
    """has the path tested something about this array (its length, usually)"""
    return any(isinstance(k, int) and path in deps(k) and not _elementwise(k) for k in st.assume)


def _elementwise(k):
    n = node(k)
    return n[0] == "call" and nm(n).rsplit(".", 1)[-1] in ("any", "all", "isnan")


def is_points(eng, cls):
    return any(getattr(c, "name", c) == "Points" for c in (cls.mro if hasattr(cls, "mro") else [cls]))


def rule_c07(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role in ("internal", "setter", "init"):
        return []
    for x in exits:
        if x.kind != "return":
            continue
        st = x.st
        for base, v in result_roots(eng, e, x):
            for p, o, h in data_objects(eng, st, v, base):
                parts = PARTS.get(h.cls.name)
                got = {}
                if not parts and attr_expr(eng, st, h, "xy") is not None:
                    for a in sorted(POINTWISE):
                        ax = attr_expr(eng, st, h, a)
                        s = psel(ax) if ax is not None else UNKNOWN
                        if s == UNKNOWN:
                            continue
                        # data that may be absent: left alone when the path has looked at it
                        n = node(ax)
                        if n[0] == "in" and a != "xy" and tested(st, n[1]):
                            continue
                        stats["C07.points"] = stats.get("C07.points", 0) + 1
                        got.setdefault("the points", []).append((a, s))
                    parts = ()
                if not parts and not got:
                    continue
                for a, nd, axs in parts:
                    ax = attr_expr(eng, st, h, a)
                    if ax is None:
                        continue
                    for co, axis in axs.items():
                        s = sel(ax, axis, nd)
                        if s == UNKNOWN:
                            stats["C07.unknown"] = stats.get("C07.unknown", 0) + 1
                            continue
                        stats["C07.parts"] = stats.get("C07.parts", 0) + 1
                        got.setdefault(co, []).append((a, s))
                for a, nd, axs in parts:
                    ax = attr_expr(eng, st, h, a) if nd == 2 else None
                    s = moves(ax) if ax is not None else UNKNOWN
                    if s != UNKNOWN and nd == 2:
                        stats["C07.moves"] = stats.get("C07.moves", 0) + 1
                        got.setdefault("both axes", []).append((a, s))
                for co, l in got.items():
                    for i, (a, s) in enumerate(l):
                        for b, t in l[i + 1:]:
                            for k in s:
                                if k in t and s[k] != t[k] and (displaced if co == "both axes" else differs)(s[k], t[k]):
                                    pp = public_path(eng, p)
                                    key = "%s|%s|%s~%s|%s" % (short(e.fi.qual), pp, a, b, co)
                                    if key not in out:
                                        out[key] = finding(
                                            "C07", "misaligned", e, "%s: along %s, %s.%s keeps %s of %s but %s.%s keeps %s" % (
                                                e.name, co, pp, a, show_chain(s[k]), public_path(eng, k), pp, b, show_chain(t[k])), key,
                                            e.fi.module.rel, e.fi.lineno, e.fi.qual, {"trail": list(st.trail[-10:]), "numf": st.numf})
    return list(out.values())


RULES2.append(rule_c07)


# ---------------------------------------------------------------------------- C08
SWAPS = re.compile(r"rotat|transp|swap|reverse|revert|invert|export_to_profile|permut|streamf|shear|grad|vortic|circul|crit|track")
PAIRS = (("axe_x", "axe_y"), ("comp_x", "comp_y"), ("unit_x", "unit_y"))


def twin(p):
    """x-parameter -> its y-counterpart and the reverse"""
    for a, b in (("x", "y"), ("y", "x")):
        if p.endswith(a) or p.startswith(a + "_") or p == a:
            q = p[:-1] + b if p.endswith(a) else b + p[1:]
            return a, q
    return None, None


def rule_c08(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role in ("internal",) or SWAPS.search(e.fi.name):
        return []
    ps = set(e.fi.params) | set(e.fi.kwonly)
    sided = {}
    for q in ps:
        a, t = twin(q)
        if a and t in ps:
            sided[q] = (a, t)
    for x in exits:
        if x.kind != "return":
            continue
        st = x.st
        for base, v in result_roots(eng, e, x):
            for p, o, h in data_objects(eng, st, v, base):
                if h.cls.name in ("Profile", "Points", "OrientedPoints"):
                    continue
                for a, b in PAIRS:
                    for mine, other in ((a, b), (b, a)):
                        xx = attr_expr(eng, st, h, mine)
                        if xx is None:
                            continue
                        src = {l for l in sources(xx) if "_Profile__" not in l and "_Points__" not in l}
                        sm = {suffix(l) for l in src}
                        stats["C08.parts"] = stats.get("C08.parts", 0) + 1
                        bad = None
                        if other in sm and mine not in sm:
                            bad = "is taken from %s" % other
                        d = {l[4:].split(".")[0].split("[")[0] for l in deps(xx) if l.startswith("arg:")}
                        side = mine[-1]
                        wrong = sorted(q for q in d if q in sided and sided[q][0] != side)
                        if wrong and (mine.startswith("axe") or mine.startswith("unit")):
                            bad = "depends on '%s'" % wrong[0]
                        if bad:
                            pp = public_path(eng, p)
                            key = "%s|%s.%s|%s" % (short(e.fi.qual), pp, mine, bad)
                            if key not in out:
                                out[key] = finding("C08", "xy-mixed", e, "%s: %s.%s %s (%s)" % (e.name, pp, mine, bad, ex.show(xx)[:160]), key,
                                                   e.fi.module.rel, e.fi.lineno, e.fi.qual,
                                                   {"trail": list(st.trail[-10:]), "numf": st.numf})
    return list(out.values())


RULES2.append(rule_c08)
