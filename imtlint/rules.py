"""Rules evaluated on the exit states of an entry point."""
import ast
import os
from .prog import FuncInfo, PropInfo
from .values import *
from . import expr as ex
from . import models
from .expr import leaf, node

# methods whose documented purpose is to change the object they are called on (and which have no in-place switch)
MUTATORS = set("""change_unit set_origin change_dtype import_from_arrays import_from_Points add add_point add_points
remove remove_point add_field remove_field remove_fields add_pts remove_pts inject_time_profile clean_traj compute_traj
smooth_traj topo_simplify symetrize add_vortex remove_vortex add_wall add_custom_field refresh_imaginary_vortex
add_object inverse_normals refine solving_sigma compute_everything recompute_everything prepare_data pod_decomp
pod_reconstr CP_detection add_file remove_files delete_existing_files load_files_from_regex build_tree
remove_empty_directories simplify NL_simplifiy import_from_CP run add_progress_counter finish print_progress start_chrono
compute_velocity compute_velocity_on_grid compute_velocity_on_line compute_pressure_from_velocity
get_displaced_point_field generate_point_field get_FTLE make_evenly_spaced get_stabilized_obj""".split())
NOT_OPS = {"__init__", "__setitem__", "__delitem__", "__iadd__", "__enter__", "__exit__", "__call__", "__del__",
           "__new__", "__setattr__", "__getstate__", "__setstate__", "__next__"}


def short(q):
    return q.replace("IMTreatment.", "", 1) if q.startswith("IMTreatment.") else q


def cost_hint(e):
    n = (e.fi.node.end_lineno or 0) - e.fi.node.lineno
    w = 1
    if e.cls is not None and e.cls.name.startswith("Temporal"):
        w = 3
    if "mirroring" in e.fi.name or "tke" in e.fi.name or "turb" in e.fi.name:
        w *= 5
    return n * w


API = frozenset(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.txt")).read().split())
# derived data kept on the object (never compared, saved or shown): filling it lazily is not a modification
CACHES = {"_ModalFields__spat_coh", "_ModalFields__temp_coh", "im_vortex", "to_refresh", "tree"}
# classes that hold the objects they are given by reference, as documented (a vortex system shows its vortices, ...)
HOLDERS = {"VortexSystem", "HsvSystem", "StepSystem", "System", "FTLE", "Stabilizer", "POD_CP_protocol", "Files",
           "MultiThreading", "ProgressCounter", "Panel", "Vortex", "CustomField"}


def role_of_entry(e):
    """'pure', 'inplace', 'mutator', 'init', 'internal'"""
    n = e.fi.name
    if e.fi.qual not in API or (e.cls is None and n.startswith("_")):
        return "internal"       # not part of the documented interface: judged through its callers
    if e.kind == "get":
        return "pure"
    if e.kind == "set":
        return "setter"
    if e.cls is None:
        return "inplace" if e.scen.get("inplace") is True else "pure"
    if n == "__init__":
        return "init"
    if n.startswith("__") and n.endswith("__"):
        return "internal" if n in NOT_OPS else "pure"
    if n.startswith("_") and n != "_display":
        return "internal"
    if e.scen.get("inplace") is True:
        return "inplace"
    if e.scen.get("inplace") is False:
        return "pure"
    if n in MUTATORS:
        return "mutator"
    return "pure"


def finding(prop, rule, e, msg, key, file=None, line=0, func=None, extra=None):
    return {"prop": prop, "rule": rule, "entry": e.name, "efunc": short(e.fi.qual), "msg": msg,
            "key": "%s|%s|%s" % (prop, rule, key), "file": file or e.fi.module.rel, "line": line or e.fi.lineno,
            "func": short(func or e.fi.qual), "extra": extra or {}}


# ---------------------------------------------------------------------------- ownership helpers
def attr_leafs(eng, st, oid):
    """Initial value description of each attribute of an owned instance."""
    h = st.heap[oid]
    return h.lazy


def own_mask_leaf(eng, cls, path):
    """Leaf of the mask stored next to attribute path ('self.fields[*]._SF__values')."""
    base = path.rsplit(".", 1)[0]
    pm = eng.schema.pubmap.get(cls.qual, {})
    if "mask" in pm and path.rsplit(".", 1)[1] in [pm.get(a) for a in ("values", "comp_x", "comp_y", "y")
                                                   if a != "y" or "x" in pm]:
        return leaf(base + "." + pm["mask"])
    return None


implies, is_nan = models.implies, models.is_nan


def benign_expr(e, path, mask, depth=0, ctx=()):
    """e is the input content of path (seen through the index chain ctx) except on masked cells."""
    if depth > 80:
        return False
    k = (e, path, mask, ctx)
    r = _BEN.get(k)
    if r is None:
        r = _BEN[k] = _benign(e, path, mask, depth, ctx)
    return r


_BEN = {}


def _benign(e, path, mask, depth, ctx):
    def at(x):
        for d in ctx:
            x = models.mk_idx(x, d)
        return x
    if e == at(leaf(path)):
        return True
    n = node(e)
    if n[0] == "store":
        d = n[2]
        if mask is not None and len(d) == 1 and d[0][0] == "a" and d[0][1] == at(mask):
            return benign_expr(n[1], path, mask, depth + 1, ctx)
        if len(d) == 1 and d[0][0] == "a" and is_nan(n[3]) and \
                implies(d[0][1], False, None):
            return benign_expr(n[1], path, mask, depth + 1, ctx)
        if mask is not None and len(d) == 1 and d[0][0] == "a":
            # cells holding NaN are masked (class invariant), so writing there is not observable either
            m = node(d[0][1])
            if m[0] == "call" and m[1] == "numpy.isnan" and benign_expr(m[2][0], path, mask, depth + 1, ctx):
                return benign_expr(n[1], path, mask, depth + 1, ctx)
        return benign_expr(n[1], path, mask, depth + 1, ctx) and \
            benign_expr(n[3], path, mask, depth + 1, ctx + (d,))
    if n[0] == "phi":
        return all(benign_expr(x, path, mask, depth + 1, ctx) for x in n[1:])
    if n[0] == "call" and n[1] == "ite":
        return all(benign_expr(x, path, mask, depth + 1, ctx) for x in n[2][1:])
    if n[0] == "idx" and ctx and n[2] == ctx[-1]:
        return benign_expr(n[1], path, mask, depth + 1, ctx[:-1])
    return False


def changed_owned(eng, st, prefix):
    """Owned objects below `prefix` whose final content is not the initial one: list of (path, kind)."""
    out = []
    for oid, h in st.heap.items():
        ow = getattr(h, "owner", None)
        if ow is None or not under(ow, prefix):
            continue
        if isinstance(h, Arr):
            if h.base is not None or h.expr == leaf(ow):
                continue
            m = None
            if "." in ow:
                cls = owner_class(eng, st, ow)
                if cls is not None:
                    m = own_mask_leaf(eng, cls, ow)
            if not benign_expr(h.expr, ow, m):
                out.append((ow, "content"))
        elif isinstance(h, Inst):
            for k, v in h.attrs.items():
                p = (h.lazy or ow) + "." + k
                if not input_attr(eng, st, v, p):
                    out.append((p, "attribute"))
        elif isinstance(h, Lst):
            if h.lazy is None:
                continue
            okv = h.items is None and isinstance(h.elem, R) and len(h.elem.oids) == 1 and \
                getattr(st.heap[h.elem.oids[0]], "owner", None) == ow + "[*]"
            if not okv:
                out.append((ow, "list content"))
        elif isinstance(h, Dct):
            for k, v in h.items.items():
                v = eng.conc(st, v)
                kp = "%s[%r]" % (ow, getattr(k, "v", k))
                if isinstance(v, S) and v.key.startswith(ow + "["):
                    continue
                if isinstance(v, R) and any(under(getattr(st.heap[o], "owner", None) or "", ow) for o in v.oids):
                    continue
                if isinstance(v, (X, N, U)) and v.expr is not None and node(v.expr)[0] == "in" \
                        and node(v.expr)[1].startswith(ow):
                    continue
                out.append((kp, "dict content"))
    return out


def input_attr(eng, st, v, path):
    v0 = v
    v = eng.conc(st, v)
    if isinstance(v, R):
        return all(getattr(st.heap[o], "owner", None) == path for o in v.oids)
    if isinstance(v, U):
        return v.expr == leaf(path)
    if isinstance(v, (X, N)):
        return v.expr == leaf(path)
    if isinstance(v0, S):
        return v0.key == path
    if isinstance(v, K):
        cls = owner_class(eng, st, path)
        spec = eng.schema.spec(cls, path.rsplit(".", 1)[1]) if cls is not None else None
        return spec is not None and spec[0] == "cls"
    return False


def under(p, prefix):
    return p == prefix or (p.startswith(prefix) and p[len(prefix):len(prefix) + 1] in (".", "["))


def owner_class(eng, st, path):
    base = path.rsplit(".", 1)[0]
    for h in st.heap.values():
        if isinstance(h, Inst) and h.owner == base:
            return h.cls
    return None


def public_path(eng, path):
    """self._ScalarField__values -> self.values"""
    for pm in eng.schema.pubmap.values():
        for pub, priv in pm.items():
            if priv != pub:
                path = path.replace("." + priv + ".", "." + pub + ".").replace("." + priv + "[", "." + pub + "[")
                if path.endswith("." + priv):
                    path = path[:-len(priv)] + pub
    return path


def getter_ranges(prog):
    r = getattr(prog, "_getter_ranges", None)
    if r is None:
        r = set()
        for c in prog.classes.values():
            for m in c.members.values():
                if isinstance(m, PropInfo) and m.fget is not None:
                    r.add((m.fget.module.rel, m.fget.node.lineno, m.fget.node.end_lineno))
        prog._getter_ranges = r
    return r


def in_getter(prog, w):
    return any(f == w[2] and a <= w[3] <= b for f, a, b in getter_ranges(prog))


def writer_of(st, path, prog):
    """Write record responsible for a change of path.  What a property getter writes is judged on the getter itself."""
    best = None
    for w in st.writes:
        if in_getter(prog, w):
            continue
        if w[0] == path or under(w[0], path) or under(path, w[0]):
            best = w
            if w[0] == path:
                return w
    return best


def rooted(path, base):
    return path.startswith(base)


def arg_roots(eng, st):
    s = set()
    for h in st.heap.values():
        ow = getattr(h, "owner", None)
        if ow and (ow.startswith("arg:") or ow.startswith("default:")):
            r = ow.split(".")[0].split("[")[0] if ow.startswith("arg:") else ow
            s.add(r)
    return s


# ---------------------------------------------------------------------------- C01 / C02
class _NP(object):
    _getter_ranges = frozenset()


_NOPROG = _NP()


def rule_c01(eng, e, exits, stats):
    out = {}
    if e.cls is None or e.fi.is_static or e.fi.is_classm or role_of_entry(e) != "pure":
        return []
    stats["C01.exits"] = len(exits)
    for x in exits:
        for path, what in changed_owned(eng, x.st, "self"):
            if path.rsplit(".", 1)[-1].split("[")[0] in CACHES:
                continue
            w = writer_of(x.st, path, eng.prog if e.kind != "get" else _NOPROG)
            if w is None:
                continue
            pp = public_path(eng, path)
            key = "%s|%s|%s" % (short(e.fi.qual), short(w[1]), pp)
            if key in out:
                continue
            out[key] = finding("C01", "receiver-modified", e,
                               "%s modifies the object it is called on: %s of %s written by %s" %
                               (e.name, what, pp, short(w[1])), key, w[2], w[3], w[1],
                               {"trail": list(x.st.trail[:8]), "stack": [list(s) for s in w[5][:8]], "exit": x.kind})
    return list(out.values())


def rule_c02(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role == "internal" or (e.cls is not None and e.cls.name in HOLDERS and role in ("mutator", "init")):
        return []
    for x in exits:
        for r in arg_roots(eng, x.st):
            stats["C02.args"] = stats.get("C02.args", 0) + 1
            if e.cls is None and role == "inplace":
                continue
            for path, what in changed_owned(eng, x.st, r):
                w = writer_of(x.st, path, eng.prog)
                if w is None:
                    continue
                pp = public_path(eng, path)
                key = "%s|%s|%s" % (short(e.fi.qual), short(w[1]), pp)
                if key in out:
                    continue
                out[key] = finding("C02", "argument-modified", e, "%s modifies its argument: %s of %s written by %s" %
                                   (e.name, what, pp, short(w[1])), key, w[2], w[3], w[1],
                                   {"trail": list(x.st.trail[:8]), "stack": [list(s) for s in w[5][:8]],
                                    "exit": x.kind})
    return list(out.values())


# ---------------------------------------------------------------------------- C03
def reach(eng, st, v, seen, path="result"):
    """Yield (path, oid) of heap objects reachable from v."""
    stack = [(v, path)]
    while stack:
        v, p = stack.pop()
        if isinstance(v, S):
            v = eng.conc(st, v)
        if isinstance(v, T):
            for i, x in enumerate(v.items):
                stack.append((x, "%s[%d]" % (p, i)))
        elif isinstance(v, R):
            for o in v.oids:
                if o in seen:
                    continue
                seen.add(o)
                yield p, o
                h = st.heap[o]
                if isinstance(h, Inst):
                    for k, x in h.attrs.items():
                        stack.append((x, p + "." + k))
                elif isinstance(h, Lst):
                    for i, x in enumerate(h.items or ()):
                        stack.append((x, p + "[*]"))
                    if h.elem is not None:
                        stack.append((h.elem, p + "[*]"))
                elif isinstance(h, Dct):
                    for k, x in h.items.items():
                        stack.append((x, p + "[*]"))


SHARE_OK_NAMES = {"__iter__", "__getitem__", "__next__", "get_data", "iter", "iter_traj"}


def rule_c03(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role == "internal" or e.fi.name in SHARE_OK_NAMES or e.kind == "get" or \
            (e.cls is not None and e.cls.name in HOLDERS):
        return []
    for x in exits:
        if x.kind != "return":
            continue
        st = x.st
        roots = []
        if role in ("pure", "inplace", "mutator") and x.val is not None:
            roots.append(("result", x.val, role == "pure"))
        if role in ("init", "setter", "inplace", "mutator") and e.cls is not None:
            roots.append(("self", self_ref(st), False))
        for base, v, pure in roots:
            if v is None:
                continue
            for p, o in reach(eng, st, v, set(), base):
                stats["C03.objects"] = stats.get("C03.objects", 0) + 1
                h = st.heap[o]
                if isinstance(h, Arr):
                    ow = eng.owner_of(st, o)
                elif isinstance(h, (Inst, Lst, Dct)):
                    ow = h.owner
                else:
                    ow = None
                if ow is None or ow.startswith("default:") or ow.startswith("global:"):
                    continue
                if base == "self" and under(ow, "self"):
                    continue
                if base == "result" and not pure and under(ow, "self"):
                    continue
                pp, po = public_path(eng, p), public_path(eng, ow)
                if p == "result":
                    # the object itself is returned
                    kind = "returns-input"
                else:
                    kind = "shared-storage"
                if not isinstance(h, Arr) and not isinstance(h, (Lst, Dct, Inst)):
                    continue
                key = "%s|%s|%s" % (short(e.fi.qual), pp, po)
                if key in out:
                    continue
                out[key] = finding("C03", kind, e, "%s: %s shares storage with %s" % (e.name, pp, po), key,
                                   extra={"trail": list(st.trail[:8])})
    return list(out.values())


def self_ref(st):
    for o, h in st.heap.items():
        if isinstance(h, Inst) and h.owner == "self":
            return R((o,))
    return None


# ---------------------------------------------------------------------------- C04
def rule_c04(eng, e, exits, stats):
    out = {}
    if "inplace" not in e.scen:
        return []
    for x in exits:
        if x.kind != "return":
            continue
        stats["C04.paths"] = stats.get("C04.paths", 0) + 1
        v = eng.conc(x.st, x.val) if x.val is not None else C(None)
        k = None
        if e.scen["inplace"] is False:
            if isinstance(v, C):
                k, m = "returns-nothing", "returns %r instead of a new object although inplace=False" % (v.v,)
            elif isinstance(v, R):
                own = [getattr(x.st.heap[o], "owner", None) for o in v.oids]
                if any(w == "self" or (w or "").startswith("arg:") for w in own):
                    k, m = "returns-receiver", "returns the object itself although inplace=False"
        else:
            if isinstance(v, R) and any(isinstance(x.st.heap[o], Inst) and x.st.heap[o].owner is None
                                        and x.st.heap[o].cls is not None for o in v.oids):
                k, m = "inplace-returns-new", "returns a new object although inplace=True"
        if k:
            key = "%s|%s" % (short(e.fi.qual), k)
            if key not in out:
                out[key] = finding("C04", k, e, "%s %s" % (e.name, m), key,
                                   extra={"trail": list(x.st.trail[:8]), "numf": x.st.numf})
    return list(out.values())


RULES = [rule_c01, rule_c02, rule_c03, rule_c04]


def evaluate(eng, e, exits, stats, prop=None):
    """findings of every rule, or of the rules of one property (rule functions are named rule_<property>)"""
    out = []
    from .rules2 import RULES2
    from . import rules3
    for r in RULES + RULES2:
        if prop and r.__name__.startswith("rule_c") and r.__name__ != "rule_" + prop.lower():
            continue
        out.extend(r(eng, e, exits, stats))
    return out
