"""Exit-state rules for units, masks, alignment, x/y symmetry, equality, rejected calls and time series."""
import ast
from .values import *
from . import expr as ex, models
from .expr import leaf, node, deps, mk
from .models import ANY, LIT, red
from .rules import (finding, short, reach, self_ref, role_of_entry, public_path, under, HOLDERS, CACHES,
                    changed_owned, writer_of)


def result_roots(eng, e, x, pure_self=False):
    """(label, value) of what the caller sees after a returning exit"""
    role = role_of_entry(e)
    roots = []
    if x.val is not None:
        roots.append(("result", x.val))
    if e.cls is not None and role in ("init", "setter", "inplace", "mutator"):
        roots.append(("self", self_ref(x.st)))
    return [(b, v) for b, v in roots if v is not None]


def data_objects(eng, st, v, base):
    for p, o in reach(eng, st, v, set(), base):
        h = st.heap[o]
        if isinstance(h, Inst) and h.cls is not None and eng.schema.attr.get(h.cls.qual):
            yield p, o, h


# ---------------------------------------------------------------------------- C05
def attr_val(eng, st, o, name):
    """value of an attribute, None if it still is the (lazy) input one"""
    h = st.heap[o]
    return h.attrs.get(name)


def unit_of(eng, st, o, name):
    h = st.heap[o]
    v = h.attrs.get(name)
    if v is None:
        if h.lazy is None:
            return None
        role = eng.schema.spec(h.cls, name)
        if role is None or role[0] != "unit":
            return None
        return ex.mono(eng.unit_atom(h.lazy + "." + name, role[3]))
    v = eng.conc(st, v)
    if isinstance(v, U) and v.mon is not None and v.tn not in (None, ANY):
        return red(v.eff())
    return None


def tag_of_attr(eng, st, o, name, spec):
    h = st.heap[o]
    v = h.attrs.get(name)
    if v is None:
        if h.lazy is None or not spec[1]:
            return None
        usp = eng.schema.spec(h.cls, spec[1])
        if usp is None:
            return None
        return ex.mono(eng.unit_atom(h.lazy + "." + spec[1], usp[3]))
    v = eng.conc(st, v)
    if isinstance(v, R):
        t = None
        for k in v.oids:
            a = st.heap[k]
            if not isinstance(a, Arr):
                return None
            t2 = eng.tag_of(st, R((k,)))
            if t2 in (None, ANY, LIT):
                return None
            t2 = red(t2)
            if t is not None and t != t2:
                return None
            t = t2
        return t
    return None


class UnitFacts:
    """what one path established about units: equalities (tests that passed) and equal dimensions (sums that exist)"""

    def __init__(self, eng, st, merge=()):
        self.eqs, self.dims = [], []
        for k, b in st.assume.items():
            c = eng.unit_cmp.get(k)
            if c is not None and (c[0] == "==") == bool(b):
                self.eqs.append(c[1])
        self.dims.extend(eng.unit_dim.values())
        self.eqs.extend(merge)
        self.free = set()
        for k, b in st.assume.items():
            n = ex.node(k)
            if n[0] == "cmp" and n[1] in ("==", "!=") and (n[1] == "==") == bool(b) and ex.is_const(n[3]):
                c = ex.const_val(n[3])
                m = ex.node(n[2])
                if (c == 0 and m[0] == "call" and m[1] == "len") or (c == (0,)):
                    # nothing is stored in that object: its unit says nothing
                    self.free.update(str(d).rsplit(".", 1)[0] for d in ex.deps(n[2]))

    @staticmethod
    def insolve(vec, gens):
        """is vec a rational combination of gens (sparse dict vectors)?"""
        rows = []

        def elim(v):
            v = dict(v)
            for piv, r in rows:
                c = v.get(piv)
                if c:
                    for k, x in r.items():
                        y = v.get(k, 0) - c * x
                        if y:
                            v[k] = y
                        else:
                            v.pop(k, None)
            return v
        for g in gens:
            g = elim(g)
            if not g:
                continue
            piv = min(g, key=repr)
            c = g[piv]
            g = {k: x / c for k, x in g.items()}
            rows = [(p, {k: y for k, y in ((k, r.get(k, 0) - r.get(piv, 0) * g.get(k, 0)) for k in set(r) | set(g)) if y})
                    for p, r in rows]
            rows.append((piv, g))
        return not elim(vec)

    def dimvec(self, m):
        v = {}
        for k, e in m:
            r = ex.role_of(k)
            if isinstance(k, tuple) and k and k[0] == "N":
                for kk, ee in self.dimvec(k[1]).items():
                    v[kk] = v.get(kk, 0) + ee * e
                continue
            v[r or k] = v.get(r or k, 0) + e
        return {k: e for k, e in v.items() if e}

    def simp(self, m):
        """replace N(E), the normalised unit of E, by 1 when E is dimensionless and by E' when E = E' is one unit"""
        out = ()
        for k, e in m:
            if isinstance(k, tuple) and k and k[0] == "N":
                inner = self.simp(k[1])
                if self.insolve(self.dimvec(inner), [self.dimvec(d) for d in self.dims + self.eqs]):
                    continue
                out = ex.mmul(out, ((("N", inner), e),))
                continue
            out = ex.mmul(out, ((k, e),))
        return red(out)

    def same(self, a, b):
        m = self.simp(ex.mdiv(a, b))
        if m == ():
            return True
        if self.free and any(isinstance(k, tuple) and k[0] == "u" and k[1] in self.free for k, _ in a + b):
            return True
        return self.insolve(dict(m), [dict(self.simp(q)) for q in self.eqs])


def xy_merge(*monos):
    """equations x unit = y unit for the objects met in the given monomials"""
    ps = set()

    def go(m):
        for k, e in m:
            if isinstance(k, tuple) and k and k[0] == "N":
                go(k[1])
            elif isinstance(k, tuple) and k and k[0] == "u" and k[2] in ("x", "y"):
                ps.add(k[1])
    for m in monos:
        go(m)
    out = []
    for p in sorted(ps, key=str):
        out.append(((("u", p, "x"), ex.Fraction(1)), (("u", p, "y"), ex.Fraction(-1))))
    return out


def modal(m):
    """mentions the modes of a modal decomposition (the mode / amplitude split of the unit is a convention)"""
    return any(isinstance(k, tuple) and k and k[0] == "u" and (".modes[*]" in str(k[1]) or ".temp_evo[*]" in str(k[1]))
               for k, _ in m)


def show_u(m):
    return ex.show_mono(m)


def rule_c05(eng, e, exits, stats):
    out = {}
    role = role_of_entry(e)
    if role == "internal" or (e.kind == "set" and e.fi.name.startswith("unit_")):
        return []
    for x in exits:
        if x.kind != "return":
            continue
        st = x.st
        uf = UnitFacts(eng, st)
        merge = []
        seen = set()
        for ev in st.events:
            if ev[0] != "unit-mix":
                continue
            info = dict(ev[4]) if not isinstance(ev[4], dict) else ev[4]
            a, b = info["a"], info["b"]
            if (a, b) in seen:
                continue
            seen.add((a, b))
            if modal(a) or modal(b):
                continue
            if uf.same(a, b):
                continue
            g = xy_merge(a, b)
            if g and UnitFacts(eng, st, g).same(a, b):
                merge.extend(g)       # both coordinates of one plane: lengths in one unit
                continue
            key = "%s|%s|%s" % (short(ev[1]), info.get("what"), "mix")
            if key not in out:
                out[key] = finding("C05", "unit-mix", e, "%s combines numbers expressed in different units (%s and %s) in %s" % (
                    e.name, show_u(a), show_u(b), short(ev[1])), key, ev[2], ev[3], ev[1],
                    {"trail": list(st.trail[:8]), "numf": st.numf})
        if merge:
            uf = UnitFacts(eng, st, merge)
        for base, v in result_roots(eng, e, x):
            for p, o, h in data_objects(eng, st, v, base):
                for a, spec in eng.schema.attr[h.cls.qual].items():
                    if spec[0] != "arr" or not spec[1]:
                        continue
                    if a not in h.attrs and spec[1] not in h.attrs:
                        continue
                    t = tag_of_attr(eng, st, o, a, spec)
                    u = unit_of(eng, st, o, spec[1])
                    if t is None or u is None:
                        continue
                    stats["C05.pairs"] = stats.get("C05.pairs", 0) + 1
                    if modal(t) or modal(u):
                        continue
                    if t != u and not uf.same(t, u):
                        pp = public_path(eng, p + "." + a)
                        key = "%s|%s|%s" % (short(e.fi.qual), e.scen.get("inplace"), pp)
                        if key not in out:
                            out[key] = finding("C05", "unit-mismatch", e, "%s: the numbers in %s are in %s but the unit "
                                               "stored with them is %s" % (e.name, pp, show_u(t), show_u(u)), key,
                                               extra={"trail": list(st.trail[:8]), "numf": st.numf})
    return list(out.values())


RULES2 = [rule_c05]


# ---------------------------------------------------------------------------- C10
_GUARDS, _ARGN = {}, {}


def raise_guards(fi):
    """raise statement of fi -> names read by the tests that lead to it (enclosing ifs and the try it handles)"""
    r = _GUARDS.get(fi.node)
    if r is not None:
        return r
    r = _GUARDS[fi.node] = {}
    names = lambda n: {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

    def go(body, g):
        for s in body:
            if isinstance(s, ast.Raise):
                r[s] = set(g)
            elif isinstance(s, (ast.If, ast.While)):
                t = g | names(s.test)
                go(s.body, t)
                go(s.orelse, t)
            elif isinstance(s, ast.Try):
                t = g | {n for b in s.body for n in names(b)}
                go(s.body, g)
                for h in s.handlers:
                    go(h.body, t)
                go(s.orelse, g)
                go(s.finalbody, g)
            elif isinstance(s, (ast.For, ast.With)):
                go(s.body, g)
                go(getattr(s, "orelse", []), g)
    go(fi.node.body, set())
    return r


def arg_names(fi):
    """parameters and the locals computed from them"""
    if fi.node in _ARGN:
        return _ARGN[fi.node]
    ps = set(fi.params) | set(fi.kwonly)
    if fi.cls is not None and not fi.is_static and fi.params:
        ps.discard(fi.params[0])
    for _ in range(4):
        for s in ast.walk(fi.node):
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(s.value)):
                for t in s.targets:
                    ps |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    _ARGN[fi.node] = ps
    return ps


def rule_c10(eng, e, exits, stats):
    """at a `raise` of the called method itself (or of the inherited version it delegates to) guarded by a test of the
    arguments, nothing reachable from the receiver has been changed yet"""
    out = {}
    role = role_of_entry(e)
    if e.cls is None or e.fi.is_static or e.fi.is_classm or role not in ("setter", "inplace", "mutator"):
        return []
    own = {}
    for c in e.cls.mro():
        m = c.members.get(e.fi.name)
        for f in ([m.fset] if hasattr(m, "fset") else [m]):
            if f is not None and hasattr(f, "qual"):
                own[f.qual] = f
    for x in exits:
        if x.kind != "raise" or not isinstance(x.val, ast.Raise):
            continue
        if not x.st.rsite or any(q not in own for q in x.st.rsite):
            continue
        fi = own[x.st.rsite[-1]]
        g = raise_guards(fi).get(x.val)
        if g is None or not (g & arg_names(fi)):
            continue
        stats["C10.rejections"] = stats.get("C10.rejections", 0) + 1
        st = x.st
        ch = [(p, w) for p, w in changed_owned(eng, st, "self") if p.rsplit(".", 1)[-1].split("[")[0] not in CACHES]
        for path, what in ch:
            w = writer_of(st, path, eng.prog)
            if w is None:
                continue
            pp = public_path(eng, path)
            key = "%s|%s|%s" % (short(e.fi.qual), short(w[1]), pp)
            if key not in out:
                out[key] = finding("C10", "modified-then-raised", e, "%s rejects its argument (raise in %s, line %d) after %s "
                                   "was already modified by %s" % (e.name, short(fi.qual), x.val.lineno, pp, short(w[1])),
                                   key, w[2], w[3], w[1], {"trail": list(st.trail[-10:]), "numf": st.numf})
    return list(out.values())


RULES2.append(rule_c10)


# ---------------------------------------------------------------------------- C11
EQ_SKIP = {"xy_scale", "_values_dtype", "name", "field_type", "colors", "cp_types"}
SIZES = {"shape", "len", "size", "ndim", "numpy.shape", "numpy.size", "type", "isinstance"}
WEAK = {"sum", "mean", "min", "max", "any", "std", "median", "prod", "nansum", "nanmean", "nanmin", "nanmax", "average"}


def _last(nm):
    return str(nm).rsplit(".", 1)[-1]


def eq_facts(k, b):
    """equalities that expression k having truth value b establishes: (kind, left, right)"""
    n = node(k)
    if n[0] == "un" and n[1] in ("not", "~", "not "):
        return eq_facts(n[2], not b)
    if n[0] == "cmp" and n[1] in ("==", "!="):
        return [("eq" if (n[1] == "==") == b else "differ", n[2], n[3])]
    if n[0] == "call":
        f = _last(n[1])
        if f in ("allclose", "array_equal", "array_equiv"):
            return [(("close" if f == "allclose" else "eq") if b else "differ", n[2][0], n[2][1])] if len(n[2]) > 1 else []
        if f in ("all", "alltrue") and n[2]:
            inner = eq_facts(n[2][0], b)
            return inner if b else [("some", x, y) if q == "differ" else ("weak", x, y) for q, x, y in inner]
        if f in ("any", "sometrue") and n[2]:
            inner = eq_facts(n[2][0], b)
            return inner if not b else [("weak", x, y) for q, x, y in inner]
        if f in ("bool", "logical_not") and n[2]:
            return eq_facts(n[2][0], b if f == "bool" else not b)
        if f in ("and", "logical_and") and b:
            return [z for x in n[2] for z in eq_facts(x, True)]
        if f in ("or", "logical_or") and not b:
            return [z for x in n[2] for z in eq_facts(x, False)]
    if n[0] in ("and", "or"):
        if (n[0] == "and") == b:
            return [z for x in n[1:] if isinstance(x, int) for z in eq_facts(x, b)]
    if n[0] == "bin" and n[1] in ("&", "and") and b:
        return eq_facts(n[2], True) + eq_facts(n[3], True)
    return []


def vdeps(k, weak=None):
    """leaves whose values (not only sizes) k depends on; names of reductions met are added to weak"""
    n = node(k)
    if n[0] == "in":
        return {n[1]}
    if n[0] == "call" and (_last(n[1]) in SIZES or n[1] in SIZES):
        return set()
    if n[0] == "view" and n[1] in SIZES:
        return set()
    if n[0] == "attr" and n[1] in SIZES:
        return set()
    if weak is not None and n[0] == "call" and _last(n[1]) in WEAK:
        weak.add(_last(n[1]))
    if weak is not None and n[0] == "idx" and any(d[0] == "i" for d in n[2]) and all(d[0] != "a" for d in n[2]):
        weak.add("element")
    if n[0] == "idx":
        return vdeps(n[1], weak)
    if n[0] == "store":
        return vdeps(n[1], weak)
    ch = ex.ET.kids(k)
    r = set()
    for c in ch:
        r |= vdeps(c, weak)
    if not ch:
        r = set(deps(k))
    return r


def rule_c11(eng, e, exits, stats):
    if e.fi.name != "__eq__" or e.cls is None or len(e.fi.params) != 2:
        return []
    out = {}
    arg = "arg:" + e.fi.params[1]
    spec = eng.schema.attr.get(e.cls.qual, {})
    pub = eng.schema.pubmap.get(e.cls.qual, {})
    parts = [a for a, s in spec.items() if s[0] in ("arr", "bool", "unit", "objs", "obj") and a not in EQ_SKIP]

    def rec(rule, what, key, x):
        key = "%s|%s" % (short(e.fi.qual) if e.cls.name in e.fi.qual else e.cls.name + "." + e.fi.name, key)
        if key not in out:
            out[key] = finding("C11", rule, e, "%s %s" % (e.name, what), key, extra={"trail": list(x.st.trail[:8])})
    for x in exits:
        if x.kind != "return":
            if isinstance(x.val, ast.Raise) and x.st.rsite and x.st.rsite[-1] == e.fi.qual:
                rec("eq-raises", "raises instead of returning a boolean (line %d)" % x.val.lineno, "raise", x)
            continue
        v = eng.conc(x.st, x.val) if x.val is not None else C(None)
        if isinstance(v, C):
            if v.v is None:
                rec("eq-none", "returns None instead of a boolean on some path", "none", x)
            if v.v is not True:
                continue
        raw = [(k, b) for k, b in x.st.assume.items()]
        if isinstance(v, N) and v.expr is not None and x.st.assume.get(v.expr) is False:
            continue
        if any(node(k)[0] == "cmp" and node(k)[1] in ("is", "is not") and (node(k)[1] == "is") == b and
               {str(d) for d in deps(k)} >= {"self", arg} for k, b in raw):
            continue        # the same object
        if isinstance(v, N) and v.expr is not None:
            raw.append((v.expr, True))
        elif not isinstance(v, C):
            ev = eng.expr_of(x.st, v)
            if ev is not None:
                raw.append((ev, True))
        sized = set()
        facts = []
        for k, b in raw:
            fs = eq_facts(k, b)
            for q, l, r in fs:
                if q == "close":
                    for y, z in ((l, r), (r, l)):
                        n = node(y)
                        if n[0] == "in" and n[1].startswith("self.") and n[1] not in sized:
                            rec("eq-size", "compares %s without having compared the sizes: an object of another size raises"
                                % public_path(eng, n[1]), "size|" + public_path(eng, n[1]), x)
                if q in ("eq", "close"):
                    sized |= {str(d) for d in deps(l) | deps(r)}
            facts.append((k, b, fs))
        for a in parts:
            sp, op = "self." + a, arg + "." + a
            stats["C11.parts"] = stats.get("C11.parts", 0) + 1
            strong = weak = other = 0
            for k, b, fs in facts:
                kd = {str(d) for d in deps(k)}
                if not any(under(d, sp) for d in kd) and not any(under(d, op) for d in kd):
                    continue
                if not fs:
                    if any(under(d, sp) for d in vdeps(k)):
                        other += 1
                    continue
                for q, l, r in fs:
                    wk = set()
                    ld, rd = vdeps(l, wk), vdeps(r, wk)
                    for ld, rd in ((ld, rd), (rd, ld)):
                        s1 = any(under(str(d), sp) for d in ld)
                        o1 = any(under(str(d), op) for d in rd)
                        if s1 and o1 and q in ("eq", "close") and not wk:
                            strong += 1
                        elif s1 and (q in ("weak", "differ") or wk or not o1):
                            weak += 1
                        elif s1:
                            other += 1
            nm = next((p for p, q in pub.items() if q == a), a)
            if strong or other:
                continue
            if weak:
                rec("eq-weak", "can be True although '%s' of the two objects differ (only partly compared)" % nm, "weak|" + nm, x)
            else:
                rec("eq-ignores", "can be True without '%s' having been compared" % nm, "ignores|" + nm, x)
    return list(out.values())


RULES2.append(rule_c11)
