"""What the data classes store.  Private storage names are inferred from the public properties of the tree under
analysis, so that a renamed private attribute does not matter."""
import ast
from .prog import PropInfo, FuncInfo

# public property -> (kind, unit property, ndim, role)
PUB = {
    "Field": {"axe_x": ("arr", "unit_x", 1, "x"), "axe_y": ("arr", "unit_y", 1, "y"),
              "unit_x": ("unit", None, 0, "x"), "unit_y": ("unit", None, 0, "y")},
    "ScalarField": {"values": ("arr", "unit_values", 2, "values"), "mask": ("bool", None, 2, "mask"),
                    "unit_values": ("unit", None, 0, "values")},
    "VectorField": {"comp_x": ("arr", "unit_values", 2, "values"), "comp_y": ("arr", "unit_values", 2, "values"),
                    "mask": ("bool", None, 2, "mask"), "unit_values": ("unit", None, 0, "values")},
    "Profile": {"x": ("arr", "unit_x", 1, "x"), "y": ("arr", "unit_y", 1, "y"), "mask": ("bool", None, 1, "mask"),
                "unit_x": ("unit", None, 0, "x"), "unit_y": ("unit", None, 0, "y")},
    "Points": {"xy": ("arr", None, 2, "xy"), "v": ("arr", "unit_v", 1, "v"), "unit_x": ("unit", None, 0, "x"),
               "unit_y": ("unit", None, 0, "y"), "unit_v": ("unit", None, 0, "v")},
    "OrientedPoints": {"orientations": ("arr", None, 3, "ori")},
    "TemporalFields": {"times": ("arr", "unit_times", 1, "times"), "unit_times": ("unit", None, 0, "times")},
    "SpatialFields": {"unit_x": ("unit", None, 0, "x"), "unit_y": ("unit", None, 0, "y"),
                      "unit_values": ("unit", None, 0, "values")},
    "CritPoints": {"unit_x": ("unit", None, 0, "x"), "unit_y": ("unit", None, 0, "y"),
                   "unit_time": ("unit", None, 0, "times")},
    "TemporalPoints": {"times": ("arr", "unit_times", 1, "times"), "unit_times": ("unit", None, 0, "times"),
                       "unit_x": ("unit", None, 0, "x"), "unit_y": ("unit", None, 0, "y")},
}
# plain attributes -> spec
PLAIN = {
    "Field": {"xy_scale": ("unit", None, 0, "scale")},
    "ScalarField": {"_values_dtype": ("num",)},
    "VectorField": {"_values_dtype": ("num",)},
    "Fields": {"fields": ("objs", {"TemporalScalarFields": "ScalarField", "SpatialScalarFields": "ScalarField",
                                   "TemporalVectorFields": "VectorField", "SpatialVectorFields": "VectorField"},
                          "ScalarField")},
    "TemporalFields": {"field_type": ("cls", "fields")},
    "SpatialFields": {"fields_type": ("cls", "fields")},
    "TemporalPoints": {"point_sets": ("objs", {}, "Points")},
    "Profile": {"name": ("str",)},
    "Points": {"name": ("str",)},
    "ModalFields": {"modes": ("objs", {}, "VectorField"), "temp_evo": ("objs", {}, "Profile"),
                    "mean_field": ("obj", "VectorField"), "times": ("arr", None, 1, "times"),
                    "unit_times": ("unit", None, 0, "times"), "modes_nmb": ("arr", None, 1, "modes"),
                    "eigvals": ("obj", "Profile"), "eigvects": ("arr", None, 2, "eig"), "ritz_vals": ("obj", "Profile"),
                    "mode_norms": ("obj", "Profile"), "growth_rate": ("obj", "Profile"), "pulsation": ("obj", "Profile"),
                    "decomp_type": ("str",)},
    "CritPoints": {"foc": ("objs", {}, "Points"), "foc_c": ("objs", {}, "Points"), "node_i": ("objs", {}, "Points"),
                   "node_o": ("objs", {}, "Points"), "sadd": ("objs", {}, "Points"), "times": ("arr", None, 1, "times"),
                   "cp_types": ("any",), "colors": ("any",)},
}


def private_of(ci, pname):
    """Private attribute behind a public property: attribute loaded in the getter and stored in the setter (or, for a
    read-only property, the single attribute loaded by the getter)."""
    m = ci.lookup(pname)
    if not isinstance(m, PropInfo) or m.fget is None:
        return pname if m is None else None

    def attrs(fi, ctx):
        out = []
        if fi is None or fi.cls is None:
            return out
        sn = fi.params[0] if fi.params else "self"
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ctx) and isinstance(n.value, ast.Name) \
                    and n.value.id == sn:
                out.append(fi.cls.mangle(n.attr))
        return out
    g = [a for a in attrs(m.fget, ast.Load)]
    s = attrs(m.fset, ast.Store) if m.fset else []
    both = [a for a in g if a in s]
    if both:
        return both[0]
    privs = [a for a in g if not isinstance(ci.lookup(a), (PropInfo, FuncInfo))]
    if len(set(privs)) == 1:
        return privs[0]
    return None


class Schema(object):
    def __init__(self, prog):
        self.prog = prog
        self.attr = {}     # class qual -> {private attr: spec}
        self.pubmap = {}   # class qual -> {public: private}
        self.missing = []
        for cname in set(PUB) | set(PLAIN):
            ci = prog.cls(cname)
            if ci is None:
                self.missing.append(cname)
        for ci in prog.classes.values():
            d = {}
            pm = {}
            for c in reversed(ci.mro()):
                for pub, spec in PUB.get(c.name, {}).items():
                    if prog.cls(c.name) is not c:
                        continue
                    pr = private_of(c, pub)
                    if pr is None:
                        self.missing.append("%s.%s" % (c.name, pub))
                        continue
                    unit_priv = private_of(c, spec[1]) if spec[1] else None
                    d[pr] = (spec[0], unit_priv, spec[2], spec[3])
                    pm[pub] = pr
                for a, spec in PLAIN.get(c.name, {}).items():
                    if prog.cls(c.name) is not c:
                        continue
                    if spec[0] == "objs":
                        el = None
                        for k in ci.mro():
                            if k.name in spec[1]:
                                el = spec[1][k.name]
                                break
                        d[a] = ("objs", el or spec[2])
                    else:
                        d[a] = spec
                    pm[a] = a
            self.attr[ci.qual] = d
            self.pubmap[ci.qual] = pm

    def spec(self, ci, attr):
        return self.attr.get(ci.qual, {}).get(attr)
