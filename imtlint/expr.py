"""Hash-consed value numbers (expressions over input leaves) and unit monomials."""
from fractions import Fraction

MAXDEPTH = 60


class ExprTable(object):
    def __init__(self):
        self.ids = {}
        self.nodes = []
        self.deps = []
        self.depth = []

    def mk(self, *node):
        i = self.ids.get(node)
        if i is not None:
            return i
        kids = self.kids_of(node)
        d = frozenset()
        dep = 0
        if kids:
            d = frozenset().union(*[self.deps[k] for k in kids])
            dep = 1 + max(self.depth[k] for k in kids)
        if node[0] == "in":
            d = frozenset([node[1]])
        elif node[0] == "opq":
            d = node[2]
        if dep > MAXDEPTH:
            node2 = ("opq", ("deep", hash(node)), d)
            j = self.mk(*node2)
            self.ids[node] = j
            return j
        i = len(self.nodes)
        self.ids[node] = i
        self.nodes.append(node)
        self.deps.append(d)
        self.depth.append(dep)
        return i

    @staticmethod
    def idx_kids(desc):
        ks = []
        for it in desc:
            if it[0] == "s":
                ks.extend(x for x in it[1:] if x is not None)
            elif it[0] in ("i", "a"):
                ks.append(it[1])
        return ks

    def kids_of(self, node):
        op = node[0]
        if op in ("const", "in", "opq", "ext"):
            return []
        if op == "bin" or op == "cmp":
            return [node[2], node[3]]
        if op == "un":
            return [node[2]]
        if op == "call":
            return list(node[2]) + [v for _, v in node[3]]
        if op == "idx":
            return [node[1]] + self.idx_kids(node[2])
        if op == "view":          # ('view', opname, params(tuple of const/exprs as ('c',v)|('e',id)), base)
            return [node[3]] + [p[1] for p in node[2] if p[0] == "e"]
        if op == "store":
            return [node[1]] + self.idx_kids(node[2]) + [node[3]]
        if op in ("phi", "tup"):
            return list(node[1:])
        if op == "attr":
            return [node[2]]
        raise ValueError(op)

    def kids(self, i):
        return self.kids_of(self.nodes[i])


ET = ExprTable()
mk = ET.mk


def node(i):
    return ET.nodes[i]


def deps(i):
    return ET.deps[i]


def const(v):
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    # keep True / 1 / 1.0 apart
    return mk("const", type(v).__name__, v)


def leaf(path):
    return mk("in", path)


_opq = [0]


def opaque(dep=frozenset(), tag=None):
    _opq[0] += 1
    return mk("opq", (tag, _opq[0]), frozenset(dep))


def phi(ids):
    flat = []
    for i in ids:
        n = node(i)
        if n[0] == "phi":
            flat.extend(n[1:])
        else:
            flat.append(i)
    s = sorted(set(flat))
    if len(s) == 1:
        return s[0]
    if len(s) > 6:
        d = frozenset().union(*[deps(x) for x in s])
        return mk("opq", ("phi", tuple(s)), d)
    return mk("phi", *s)


def is_const(i):
    return node(i)[0] == "const"


def const_val(i):
    return node(i)[2]


def lin(i, depth=0):
    """Linear normal form: (frozenset of (atom, coef)), constant)."""
    n = node(i)
    if n[0] == "const" and isinstance(n[2], (int, float)) and not isinstance(n[2], bool):
        return {}, n[2]
    if depth < 12:
        if n[0] == "bin" and n[1] in ("+", "-"):
            a, ca = lin(n[2], depth + 1)
            b, cb = lin(n[3], depth + 1)
            s = 1 if n[1] == "+" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
                if r[k] == 0:
                    del r[k]
            return r, ca + s * cb
        if n[0] == "un" and n[1] == "-":
            a, ca = lin(n[2], depth + 1)
            return {k: -v for k, v in a.items()}, -ca
        if n[0] == "bin" and n[1] == "*":
            a, ca = lin(n[2], depth + 1)
            b, cb = lin(n[3], depth + 1)
            if not a:
                return {k: v * ca for k, v in b.items() if v * ca}, ca * cb
            if not b:
                return {k: v * cb for k, v in a.items() if v * cb}, ca * cb
    return {i: 1}, 0


def lin_key(i):
    a, c = lin(i)
    return (tuple(sorted(a.items())), c)


def lin_diff_const(i, j):
    """Constant value of i-j when it is a constant, else None."""
    if i == j:
        return 0
    a, ca = lin(i)
    b, cb = lin(j)
    if a == b:
        return ca - cb
    return None


def show(i, depth=0):
    n = node(i)
    if depth > 5:
        return "..."
    op = n[0]
    d = depth + 1
    if op == "const":
        return repr(n[2])
    if op == "in":
        return n[1]
    if op in ("bin", "cmp"):
        return "(%s %s %s)" % (show(n[2], d), n[1], show(n[3], d))
    if op == "un":
        return "(%s%s)" % (n[1], show(n[2], d))
    if op == "call":
        return "%s(%s)" % (n[1].split(".")[-1], ", ".join([show(x, d) for x in n[2]] +
                                                           ["%s=%s" % (k, show(v, d)) for k, v in n[3]]))
    if op == "idx":
        return "%s[%s]" % (show(n[1], d), show_idx(n[2], d))
    if op == "view":
        return "%s.%s" % (show(n[3], d), n[1])
    if op == "store":
        return "%s{[%s]<-%s}" % (show(n[1], d), show_idx(n[2], d), show(n[3], d))
    if op == "phi":
        return "phi(%s)" % ", ".join(show(x, d) for x in n[1:])
    if op == "tup":
        return "(%s)" % ", ".join(show(x, d) for x in n[1:])
    if op == "attr":
        return "%s.%s" % (show(n[2], d), n[1])
    if op == "ext":
        return n[1]
    return "?"


def show_idx(desc, d=0):
    out = []
    for it in desc:
        if it[0] == "s":
            out.append(":".join("" if x is None else show(x, d) for x in it[1:3]) +
                       ("" if it[3] is None else ":" + show(it[3], d)))
        elif it[0] in ("i", "a"):
            out.append(show(it[1], d))
        else:
            out.append("...")
    return ", ".join(out)


# ---------------------------------------------------------------------------- unit monomials
# a monomial is a tuple of (atom, exponent) sorted; () is dimensionless; None is "unknown"; ANY is "fits anything"
ANY = "*"


def mono(atom, e=1):
    return ((atom, Fraction(e)),)


def mmul(a, b, sign=1):
    if a is None or b is None:
        return None
    if a == ANY or b == ANY:
        return ANY if (a == ANY and b == ANY) else None
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sign * v
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))


def mdiv(a, b):
    return mmul(a, b, -1)


def mpow(a, e):
    if a is None:
        return None
    if a == ANY:
        return ANY
    if isinstance(e, (int, float, Fraction)) and not isinstance(e, bool):
        e = Fraction(e).limit_denominator(1000)
        return tuple((k, v * e) for k, v in a) if e != 0 else ()
    # symbolic exponent
    if a == ():
        return ()
    return ((("pow", a, e), Fraction(1)),)


def norm_atom(u):
    """Unit obtained by normalising u (u / u.asNumber())."""
    if u is None:
        return None
    if u == () or u == ANY:
        return ()
    if len(u) == 1 and is_normalised_atom(u[0][0]):
        return u
    return ((("N", u), Fraction(1)),)


def is_normalised_atom(a):
    if isinstance(a, tuple) and a and a[0] == "raw":
        return False
    if isinstance(a, tuple) and a and a[0] == "pow":
        return len(a[1]) == 1 and is_normalised_atom(a[1][0][0])
    return True


def role_of(atom):
    if isinstance(atom, tuple) and atom:
        if atom[0] == "u":
            return atom[2]
        if atom[0] == "raw":
            return atom[2] if len(atom) > 2 else None
    return None


def role_degree(m):
    d = {}
    for k, v in m:
        r = role_of(k)
        if r is None:
            return None
        d[r] = d.get(r, 0) + v
    return {k: v for k, v in d.items() if v}


def reduce_mono(m):
    """Drop N(E) factors where E is a ratio of units of the same role (assumed compatible: N(E)=1)."""
    if m is None or m == ANY:
        return m
    out = ()
    for k, v in m:
        if isinstance(k, tuple) and k and k[0] == "N":
            inner = reduce_mono(k[1])
            deg = role_degree(inner)
            if deg == {}:
                continue
            if len(inner) == 1 and is_normalised_atom(inner[0][0]):
                out = mmul(out, tuple((a, e * v) for a, e in inner))
                continue
            out = mmul(out, ((("N", inner), v),))
            continue
        out = mmul(out, ((k, v),))
    return out


def show_mono(m):
    if m is None:
        return "?"
    if m == ANY:
        return "any"
    if m == ():
        return "1"

    def at(a):
        if isinstance(a, tuple):
            if a[0] == "u":
                return "[%s%s]" % (a[1], "" if not a[2] or "unit_" in str(a[1]) else ".unit_" + str(a[2]))
            if a[0] == "raw":
                return "[%s]" % a[1]
            if a[0] == "N":
                return "norm(%s)" % show_mono(a[1])
            if a[0] == "pow":
                return "(%s)^%s" % (show_mono(a[1]), a[2])
        return str(a)
    return "*".join(at(k) + ("" if v == 1 else "^%s" % v) for k, v in m)
