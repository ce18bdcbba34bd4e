"""Entry points of the analysis: which functions are analysed, and what their parameters may be (from the documentation,
the default values and the parameter names)."""
import ast
import re
from .prog import FuncInfo, PropInfo
from .values import *
from . import expr as ex

ARRS = frozenset(["ndarray", "list", "tuple"])
DOC_CLASSES = [
    (r"temporal ?scalar ?fields?|tsf\.temporalscalarfields?", ["TemporalScalarFields"]),
    (r"temporal ?vector ?fields?|temporal ?velocity ?fields?", ["TemporalVectorFields"]),
    (r"spatial ?scalar ?fields?", ["SpatialScalarFields"]),
    (r"spatial ?vector ?fields?", ["SpatialVectorFields"]),
    (r"temporal ?fields?", ["TemporalScalarFields", "TemporalVectorFields"]),
    (r"\bscalar ?fields?", ["ScalarField"]),
    (r"\b(?:vector|velocity) ?fields?", ["VectorField"]),
    (r"\bprofiles?\b", ["Profile"]),
    (r"\bpoints? objects?|\bpts\.points|\bpoints objects?", ["Points"]),
    (r"\boriented ?points?", ["OrientedPoints"]),
    (r"\bcrit ?points?", ["CritPoints"]),
]


def doc_type(prog, text, pname):
    """Set of categories described by a numpydoc type text, or None."""
    t = text.lower()
    t = re.split(r"\(default|, default", t)[0]
    cats = set()
    rest = t
    for pat, names in DOC_CLASSES:
        if re.search(pat, rest):
            for n in names:
                c = prog.cls(n)
                if c is not None:
                    cats.add(c.qual)
            rest = re.sub(pat, " ", rest)
    if re.search(r"\bbool", rest) and not re.search(r"arrays? of bool", rest):
        cats.add("bool")
    if re.search(r"array|tuple|list|interval|sequence", rest):
        cats |= ARRS
        if "masked" in rest:
            cats.add("masked")
        rest = re.sub(r"(?:array|tuple|list|interval)s?(?:-like)? of[ \w]*", " ", rest)
    if re.search(r"\bstr|\bpath\b|\{.?'|‘", rest):
        cats.add("str")
    if re.search(r"\bint(eger)?s?\b", rest):
        cats.add("int")
    if re.search(r"\b(number|float|scalar|real)s?\b", rest):
        cats |= {"int", "float"}
    if re.search(r"\bunums?\b|\bunits?\b", rest):
        cats |= {"unum"}
        if "unit" in pname:
            cats.add("str")
    if re.search(r"\bfunction|\bcallable", rest):
        cats.add("func")
    if re.search(r"\bdict?\b", rest):
        cats.add("dict")
    if re.search(r"\bnone\b", rest):
        cats.add("none")
    return cats or None


def doc_line(doc, p):
    if not doc:
        return None
    for line in doc.splitlines():
        m = re.match(r"^\s*([\w, *]+?)\s*:\s*(.+)$", line)
        if m and p in [x.strip().lstrip("*") for x in m.group(1).split(",")]:
            return m.group(2)
    return None


def default_cats(prog, d):
    if isinstance(d, ast.Constant):
        v = d.value
        if v is None:
            return {"none"}
        if isinstance(v, bool):
            return {"bool"}
        if isinstance(v, int):
            return {"int", "float"}
        if isinstance(v, float):
            return {"float", "int"}
        if isinstance(v, str):
            return {"str"}
    if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
        return {"int", "float"}
    if isinstance(d, (ast.List, ast.Tuple)):
        return set(ARRS)
    if isinstance(d, ast.Dict):
        return {"dict"}
    return None


def param_types(prog, fi, p):
    """Categories of parameter p of fi, or None (anything)."""
    d = fi.defaults.get(p, fi.kwdefaults.get(p))
    dc = default_cats(prog, d) if d is not None else set()
    doc = ast.get_docstring(fi.node) if not isinstance(fi.node, ast.Lambda) else None
    line = doc_line(doc, p)
    t = doc_type(prog, line, p) if line else None
    if t is None:
        if p.startswith("unit_") or p.startswith("new_unit"):
            t = {"unum", "str"}
        elif p in ("inplace", "verbose", "silent", "crop", "reverse"):
            t = {"bool"}
        elif p == "prof" and prog.cls("Profile") is not None:
            t = {prog.cls("Profile").qual}
        elif dc and dc != {"none"} and dc is not None:
            t = set(dc)
        else:
            return None
    if dc is None:
        return None
    t = set(t) | dc
    if t >= {"bool", "int"} and dc == {"bool"}:
        t = {"bool"}
    return frozenset(t)


# documented pairing of the data and unit parameters of one call
DATA_UNIT = {"axe_x": ("unit_x",), "axe_y": ("unit_y",), "values": ("unit_values",), "comp_x": ("unit_values",),
             "comp_y": ("unit_values",), "x": ("unit_x",), "y": ("unit_y",), "v": ("unit_v",),
             "time": ("unit_times", "unit_time"), "times": ("unit_times", "unit_time"),
             "dx": ("unit_x",), "dy": ("unit_y",)}


def param_units(fi):
    r = {}
    ps = set(fi.params) | set(fi.kwonly)
    for p, us in DATA_UNIT.items():
        if p in ps:
            for u in us:
                if u in ps:
                    r["arg:" + p] = "arg:" + u
                    break
    return r


def make_args(eng, st, fi, prog, self_cls=None, fixed=None, skip=()):
    """Positional argument list for an entry call; parameter types are recorded in st."""
    args = []
    fixed = fixed or {}
    ps = list(fi.params)
    if fi.cls is not None and not fi.is_static and ps:
        ps = ps[1:]
        ci = self_cls or fi.cls
        if fi.is_classm:
            args.append(K(ci))
        else:
            args.append(eng.materialise_obj(st, ci, "self"))
    for p in ps:
        if p in fixed:
            args.append(fixed[p])
            continue
        key = "arg:" + p
        t = param_types(prog, fi, p)
        if t is not None:
            st.types[key] = t
        args.append(S(key))
    kwargs = {}
    for p in fi.kwonly:
        if p in fixed:
            kwargs[p] = fixed[p]
        else:
            key = "arg:" + p
            t = param_types(prog, fi, p)
            if t is not None:
                st.types[key] = t
            kwargs[p] = S(key)
    return args, kwargs


def methods_of(ci):
    """name -> FuncInfo | PropInfo visible on instances of ci"""
    r = {}
    for c in reversed(ci.mro()):
        for n, m in c.members.items():
            r[n] = m
    return r
