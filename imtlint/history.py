"""C19: results depend on the arguments only.

Deciders over the syntax tree: (1) values coming from the clock, from unseeded random generators or from the process
must not reach a result; (2) no function changes module level or class level state that functions read; (3) values
kept on an object and reused are dropped by every method that changes what they were computed from, and are refreshed
before being read; (4) memoisation keys contain every argument."""
import ast
from .prog import Program, FuncInfo, ClassInfo, walk_local
from .effects import Scope, canon, mk

CLOCK = ("time.", "datetime.", "uuid.", "secrets.", "getpass.", "socket.", "platform.")
NAMES = {"os.urandom", "os.getpid", "os.environ", "os.getenv", "id", "hash", "object.__hash__", "os.times",
         "os.getloadavg", "os.getcwd"}
SEEDABLE = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random",
            "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937"}
# random choice of the spectra to display: documented ("check_spec")
RANDOM_DISPLAY = {("IMTreatment.core.temporalscalarfields.TemporalScalarFields.get_phase_map", "numpy.random.choice")}
# clock used for the estimation of the remaining time, printed
CLOCK_OK = {"IMTreatment.utils.progresscounter.ProgressCounter"}
PRINTING = {"print", "logging.", "warnings.warn", "sys.stdout.write", "sys.stderr.write"}
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "sort", "reverse", "discard",
       "popitem", "fill", "put", "itemset", "resize", "appendleft", "__setitem__", "sort_values"}
CACHING = {"functools.lru_cache", "functools.cache", "functools.cached_property"}


def source_of(sc, m, fn, node, imps):
    """name of a history dependent value source, or None"""
    if isinstance(node, ast.Call):
        d = canon(sc.dotted(m, fn, node.func, imps))
        if not isinstance(d, str):
            return None
        d = d.replace("scipy.random", "numpy.random")
        if d in SEEDABLE:
            a = node.args[0] if node.args else next((k.value for k in node.keywords if k.arg == "seed"), None)
            if a is None or (isinstance(a, ast.Constant) and a.value is None):
                return d + "()"
            return None
        if d.startswith("numpy.random.") or d.startswith("random."):
            return d
        if d.startswith(CLOCK) and d not in ("time.sleep", "datetime.timedelta", "time.strftime"):
            return d
        if d in NAMES and d not in ("os.getcwd",):
            return d
    elif isinstance(node, (ast.Attribute, ast.Name)) and not getattr(node, "_inner", False):
        d = canon(sc.dotted(m, fn, node, imps))
        if d in ("os.environ", "numpy.random") or (d == "random" and isinstance(node, ast.Name)):
            return d
    return None


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def is_print(sc, m, fn, c, imps):
    d = canon(sc.dotted(m, fn, c.func, imps))
    if isinstance(d, str) and (d in PRINTING or d.startswith(("logging.", "warnings."))):
        return True
    return isinstance(c.func, ast.Attribute) and c.func.attr in ("print_progress", "write", "flush")


def nondeterminism(sc, m, cls, fn, q, st):
    imps = sc.local_imports(fn)
    seeded_locally = False
    tainted = {}
    out = []
    cq = q.rsplit(".", 1)[0]
    if cq in CLOCK_OK:
        return out
    srcs = {}
    for n in walk_local(fn.body):
        if isinstance(n, ast.Attribute):
            n.value._inner = True
    for n in walk_local(fn.body):
        s = source_of(sc, m, fn, n, imps)
        if s:
            srcs[id(n)] = s
            st["sources"] += 1
        if isinstance(n, ast.Call):
            d = canon(sc.dotted(m, fn, n.func, imps))
            if d in ("numpy.random.seed", "random.seed") and n.args:
                seeded_locally = True
    if not srcs:
        return out

    def taint(e):
        """source reaching the value of e, or None"""
        for x in ast.walk(e):
            if id(x) in srcs:
                return srcs[id(x)]
            if isinstance(x, ast.Name) and x.id in tainted:
                return tainted[x.id]
        return None
    changed = True
    while changed:
        changed = False
        for n in walk_local(fn.body):
            tg, val = [], None
            if isinstance(n, ast.Assign):
                tg, val = n.targets, n.value
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                tg, val = [n.target], n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg, val = [n.target], n.iter
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                    and not is_print(sc, m, fn, n.value, imps):
                t = None
                for a in list(n.value.args) + [k.value for k in n.value.keywords]:
                    t = t or taint(a)
                b = n.value.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if t and isinstance(b, ast.Name) and b.id not in tainted:
                    tainted[b.id] = t
                    changed = True
                continue
            if val is None:
                continue
            t = taint(val)
            if t:
                for x in tg:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id not in tainted and y.id != "self":
                            tainted[y.id] = t
                            changed = True
    ok = {s for qq, s in RANDOM_DISPLAY if qq == q}

    def hit(node, s, how):
        if seeded_locally and "random" in s:
            return
        if s in ok:
            return
        out.append(mk("C19", "history-dependent", m, node, q, "the result depends on %s (%s, line %d)" % (
            s, how, node.lineno), s))
    for n in walk_local(fn.body):
        if isinstance(n, ast.Return) and n.value is not None:
            t = taint(n.value)
            if t:
                hit(n, t, "returned")
        elif isinstance(n, (ast.Yield,)) and n.value is not None:
            t = taint(n.value)
            if t:
                hit(n, t, "yielded")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            t = taint(n.value)
            if t:
                for x in tg:
                    b = x
                    while isinstance(b, (ast.Subscript,)):
                        b = b.value
                    if isinstance(b, ast.Attribute):
                        hit(n, t, "stored")
        elif isinstance(n, (ast.If, ast.While)):
            t = taint(n.test)
            if t and any(isinstance(x, (ast.Return, ast.Break)) or
                         (isinstance(x, (ast.Assign, ast.AugAssign)) and any(
                             isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)
                             for tt in (x.targets if isinstance(x, ast.Assign) else [x.target]) for y in ast.walk(tt)))
                         for b in n.body + n.orelse for x in ast.walk(b)):
                hit(n, t, "decides")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute):
            b = n.func.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id == "self" and n.func.attr in MUT:
                for a in n.args:
                    t = taint(a)
                    if t:
                        hit(n, t, "stored")
    return out


# ------------------------------------------------------------------------------------------------ module state
def module_state(sc, prog, st):
    out = []
    for m in prog.modules.values():
        glob = {}
        for n in m.tree.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        glob[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                glob[n.target.id] = n.value
        funcs = [(cls, fn, q) for mm, cls, fn, q in sc.functions() if mm is m]
        # functions whose attributes are used as storage
        for cls, fn, q in funcs:
            local = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
            if fn.args.vararg:
                local.add(fn.args.vararg.arg)
            if fn.args.kwarg:
                local.add(fn.args.kwarg.arg)
            gl = set()
            for n in walk_local(fn.body):
                if isinstance(n, ast.Global):
                    gl |= set(n.names)
            alias = {}
            for n in walk_local(fn.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in gl:
                    local.add(n.id)
            for n in walk_local(fn.body):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in glob and \
                        n.value.id not in local and isinstance(glob[n.value.id], (ast.Dict, ast.List, ast.Set, ast.Call)):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            alias[t.id] = n.value.id

            def root(e):
                while isinstance(e, (ast.Subscript, ast.Attribute)):
                    e = e.value
                return e.id if isinstance(e, ast.Name) else None

            def report(n, name, how):
                # a value nobody reads elsewhere cannot influence a result
                reads = 0
                for c2, f2, q2 in funcs:
                    for x in walk_local(f2.body):
                        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                            reads += 1
                if reads == 0:
                    return
                out.append(mk("C19", "module-state", m, n, q, "%s the module variable '%s' (line %d), which later calls "
                              "read" % (how, name, n.lineno), name))
            for n in walk_local(fn.body):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in tg:
                        for t in (t.elts if isinstance(t, ast.Tuple) else [t]):
                            st["stores"] += 1
                            if isinstance(t, ast.Name) and t.id in gl:
                                report(n, t.id, "assigns")
                            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                                r = root(t)
                                r = alias.get(r, r)
                                if r and r not in local and r in glob and isinstance(
                                        glob[r], (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                                    report(n, r, "modifies")
                                elif r and r not in local and isinstance(t, ast.Attribute) and isinstance(
                                        t.value, ast.Name):
                                    d = sc.dotted(m, fn, t.value, {})
                                    if isinstance(d, FuncInfo) and r == d.name:
                                        out.append(mk("C19", "module-state", m, n, q, "stores a value on the function %s "
                                                      "(line %d)" % (r, n.lineno), r + "." + t.attr))
                                    elif isinstance(d, ClassInfo):
                                        out.append(mk("C19", "class-state", m, n, q, "assigns the class attribute %s.%s "
                                                      "(line %d)" % (r, t.attr, n.lineno), r + "." + t.attr))
                                b = t.value
                                while isinstance(b, (ast.Subscript, ast.Attribute)) and not (
                                        isinstance(b, ast.Attribute) and b.attr == "__class__"):
                                    b = b.value
                                if (isinstance(b, ast.Attribute) and b.attr == "__class__") or (
                                        isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type"):
                                    out.append(mk("C19", "class-state", m, n, q, "changes a class attribute through the "
                                                  "instance (line %d)" % n.lineno, ast.dump(t)[:60]))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    r = root(n.func.value)
                    r0, r = r, alias.get(r, r)
                    if r and (r not in local) and r in glob and isinstance(
                            glob[r], (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                        report(n, r, "modifies")
                    # class level containers
                    b = n.func.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id in ("self", "cls") \
                            and cls is not None:
                        out += class_level(m, cls, fn, q, b.attr, n)
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and isinstance(
                                t.value.value, ast.Name) and t.value.value.id in ("self", "cls") and cls is not None:
                            out += class_level(m, cls, fn, q, t.value.attr, n)
                        if isinstance(n, ast.AugAssign) and isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and t.value.id in ("self", "cls") and cls is not None:
                            out += class_level(m, cls, fn, q, t.attr, n)
    return out


def class_level(m, cls, fn, q, attr, n):
    """self.attr is mutated but lives on the class: shared by every instance"""
    defs = [b for b in cls.body if isinstance(b, ast.Assign) and any(
        isinstance(t, ast.Name) and t.id == attr for t in b.targets)
        and isinstance(b.value, (ast.Dict, ast.List, ast.Set, ast.Call))]
    if not defs:
        return []
    for f in cls.body:
        if isinstance(f, ast.FunctionDef):
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) and isinstance(
                        x.value, ast.Name) and x.value.id == "self":
                    return []
    return [mk("C19", "class-state", m, n, q, "changes the container '%s' shared by all the instances of %s (line %d)" % (
        attr, cls.name, n.lineno), attr)]


# ------------------------------------------------------------------------------------------------ caches on objects
def demangle(cls, a):
    if a.startswith("__") and not a.endswith("__"):
        return "_" + cls.name.lstrip("_") + a
    return a


class ClassView(object):
    """reads, writes and calls of each method of a class, on self and on its local copies"""

    def __init__(self, m, cls, q):
        self.m, self.cls, self.q = m, cls, q
        self.methods = {}
        for f in cls.body:
            if isinstance(f, ast.FunctionDef):
                nm = f.name
                for d in f.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        nm += ".setter"
                self.methods[nm] = f
        self.props = {f.name for f in cls.body if isinstance(f, ast.FunctionDef) and any(
            isinstance(d, ast.Name) and d.id == "property" for d in f.decorator_list)}

    def selves(self, f):
        """names of self and of its copies in the method"""
        r = {f.args.args[0].arg} if f.args.args else set()
        for _ in range(2):
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    for x in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]):
                        if isinstance(x, ast.Name) and x.id in r:
                            r.add(n.targets[0].id)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                                "copy", "deepcopy", "__copy__"):
                            b = x.func.value
                            if (isinstance(b, ast.Name) and b.id in r) or any(
                                    isinstance(a, ast.Name) and a.id in r for a in x.args):
                                r.add(n.targets[0].id)
        return r

    def attr_of(self, e, selves):
        """self.A...: name of A"""
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in selves:
                return demangle(self.cls, e.attr)
            e = e.value
        return None

    def reads(self, node, selves):
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in selves and \
                    isinstance(n.ctx, ast.Load):
                r.add(demangle(self.cls, n.attr))
        return r

    def closure_reads(self, nodes, f, seen=None):
        seen = seen if seen is not None else set()
        sv = self.selves(f)
        r = set()
        for node in nodes:
            for a in self.reads(node, sv):
                if a in self.methods:
                    if a not in seen:
                        seen.add(a)
                        r |= self.closure_reads(self.methods[a].body, self.methods[a], seen)
                else:
                    r.add(a)
        return r

    def writes(self, f):
        """list of (attr, statement, how)"""
        sv = self.selves(f)
        elems = {}
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.iter):
                    a = self.attr_of(x, sv) if isinstance(x, ast.Attribute) else None
                    if a:
                        for y in ast.walk(n.target):
                            if isinstance(y, ast.Name):
                                elems[y.id] = a
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                    n.value, (ast.Subscript, ast.Attribute)):
                a = self.attr_of(n.value, sv)
                if a and a not in self.methods:
                    elems[n.targets[0].id] = a
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in elems and not (
                            isinstance(n.value, (ast.Subscript, ast.Attribute)) and self.attr_of(n.value, sv)):
                        elems.pop(t.id)
        out = []
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
                    for t in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(t, (ast.Attribute, ast.Subscript)):
                            a = self.attr_of(t, sv)
                            if a:
                                out.append((a, n, n.value if isinstance(n, ast.Assign) else None))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                a = self.attr_of(b, sv)
                if a is None and isinstance(b, ast.Name):
                    a = elems.get(b.id)
                if a and (n.func.attr in MUT or any(
                        k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True
                        for k in n.keywords)) and not (a in self.methods):
                    out.append((a, n, None))
        return out

    def blocks(self, f):
        """statement -> list of enclosing blocks (lists of statements), innermost first"""
        out = {}

        def rec(body, chain):
            for s in body:
                for n in ast.walk(s):
                    out.setdefault(id(n), []).insert(0, body)
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        rec(b, chain)
                for h in getattr(s, "handlers", []):
                    rec(h.body, chain)
        rec(f.body, [])
        return out


def is_reset(val):
    return isinstance(val, ast.Constant) and val.value in (None, True) or (
        isinstance(val, (ast.Dict, ast.List)) and not (val.keys if isinstance(val, ast.Dict) else val.elts))


def only_size(cv, branch, f, a):
    """the computation only uses the number of elements of the attribute"""
    sv = cv.selves(f)
    total = size = 0
    for b in branch:
        for x in ast.walk(b):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in sv and \
                    demangle(cv.cls, x.attr) == a:
                total += 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and x.args and isinstance(
                    x.args[0], ast.Attribute) and isinstance(x.args[0].value, ast.Name) and x.args[0].value.id in sv and \
                    demangle(cv.cls, x.args[0].attr) == a:
                size += 1
    return total > 0 and total == size


def caches(m, cls, q, st):
    cv = ClassView(m, cls, q)
    out = []
    writes = {n: cv.writes(f) for n, f in cv.methods.items()}

    def all_reset(name, attr, seen=()):
        """does the method reset attr (itself or through a helper of the class)?"""
        for a, n, v in writes.get(name, ()):
            if a == attr and v is not None and is_reset(v):
                return True
        f = cv.methods.get(name)
        if f is None or name in seen:
            return False
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in cv.methods and \
                    n.func.attr != name and isinstance(n.func.value, ast.Name) and n.func.value.id in cv.selves(f):
                if all_reset(n.func.attr, attr, seen + (name,)):
                    return True
        return False
    # (a) value kept on the object: tested for presence and assigned in the same method
    for name, f in cv.methods.items():
        if name == "__init__" or name.endswith(".setter") or name.startswith(("add", "remove", "set_", "import")) or \
                "plotlib" in m.name or not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f)):
            continue
        sv = cv.selves(f)
        for n in ast.walk(f):
            if not isinstance(n, ast.If):
                continue
            tested = {a for a in cv.reads(n.test, sv)}
            for x in ast.walk(n.test):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and \
                        len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and isinstance(x.args[0], ast.Name) and \
                        x.args[0].id in sv:
                    tested.add(demangle(cls, x.args[1].value) if False else x.args[1].value)
            for A in tested:
                stores = [(s, v) for a, s, v in writes[name] if a == A and v is not None and not is_reset(v)
                          and any(s is y for b in n.body + n.orelse for y in ast.walk(b))]
                presence = isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(
                    n.test.ops[0], (ast.Is, ast.IsNot)) or any(isinstance(x, ast.Call) for x in ast.walk(n.test)) or \
                    isinstance(n.test, (ast.Attribute, ast.UnaryOp))
                used = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and
                        demangle(cls, x.attr) == A and isinstance(x.value, ast.Name) and x.value.id in sv and
                        not any(x is y for y in ast.walk(n.test))]
                if not stores or not presence or not used:
                    continue
                st["caches"] += 1
                # deps of the computation
                s, v = stores[0]
                branch = n.body if any(s is y for b in n.body for y in ast.walk(b)) else n.orelse
                deps = cv.closure_reads(branch, f) - {A}
                sizes = {a for a in deps if only_size(cv, branch, f, a)}
                params = {a.arg for a in f.args.args[1:] + f.args.kwonlyargs}
                pd = set()
                stored_names = names_in(v)
                for _ in range(6):
                    for y in branch:
                        for z in ast.walk(y):
                            if isinstance(z, ast.Assign) and any(isinstance(t, (ast.Name, ast.Subscript)) and (
                                    names_in(t) | {t.id} if isinstance(t, ast.Name) else {
                                        w.id for w in ast.walk(t) if isinstance(w, ast.Name)}) & stored_names
                                    for t in z.targets):
                                stored_names |= names_in(z.value)
                pd = params & stored_names
                if pd:
                    out.append(mk("C19", "cache-ignores-argument", m, s, q + "." + name,
                                  "the value kept in self.%s depends on the argument(s) %s and is reused for other "
                                  "arguments" % (A, ", ".join(sorted(pd))), A))
                for name2, f2 in cv.methods.items():
                    if name2 in ("__init__", name):
                        continue
                    bl = cv.blocks(f2)
                    for a, w, _ in writes[name2]:
                        if a not in deps or a == A:
                            continue
                        if a in sizes and not (isinstance(w, ast.Assign) and any(
                                isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) for t in w.targets)):
                            continue
                        st["invalidations"] += 1
                        ok = False
                        for body in bl.get(id(w), []):
                            for s2 in body:
                                for a2, n2, v2 in writes[name2]:
                                    if a2 == A and v2 is not None and is_reset(v2) and any(
                                            n2 is y for y in ([s2] if not isinstance(s2, (ast.If, ast.For, ast.While))
                                                              else [])):
                                        ok = True
                                for z in ast.walk(s2) if isinstance(s2, ast.Expr) else ():
                                    if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and \
                                            z.func.attr in cv.methods and all_reset(z.func.attr, A):
                                        ok = True
                        if not ok:
                            out.append(mk("C19", "stale-cache", m, w, q + "." + name2,
                                          "changes '%s' (line %d) without dropping the value kept in '%s', which %s "
                                          "computed from it" % (a, w.lineno, A, name), A + "|" + a))
    # (b) refresh flags
    flags = {}
    for name, f in cv.methods.items():
        if name == "__init__" or "plotlib" in m.name:
            continue
        for a, n, v in writes[name]:
            if isinstance(v, ast.Constant) and v.value is False:
                others = [n2 for n2, ws in writes.items() for a2, _, v2 in ws
                          if a2 == a and isinstance(v2, ast.Constant) and v2.value is True]
                guards = [1 for f2 in cv.methods.values() for x in ast.walk(f2) if isinstance(x, ast.If)
                          and a in cv.reads(x.test, cv.selves(f2)) and any(
                              isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == name
                              for y in ast.walk(x))]
                if guards and any(True for a2, _, v2 in writes.get("__init__", ()) if a2 == a):
                    flags[a] = name
    for F, R in flags.items():
        st["refresh_flags"] = st.get("refresh_flags", 0) + 1
        rf = cv.methods[R]
        products = {x.attr for x in ast.walk(rf) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} - {F}
        mine = {x.attr for x in ast.walk(rf) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(
            x.value, ast.Name) and x.value.id in cv.selves(rf)}
        elsewhere = {x.attr for g in ast.walk(m.tree) if isinstance(g, ast.FunctionDef) and g is not rf
                     and g.name != "__init__" for x in ast.walk(g) if isinstance(x, ast.Attribute) and isinstance(
                         x.ctx, ast.Store)}
        inits = {x.attr for g in ast.walk(m.tree) if isinstance(g, ast.FunctionDef) and g.name == "__init__"
                 for x in ast.walk(g) if isinstance(x, ast.Assign) and not isinstance(x.value, ast.Constant)
                 and not (isinstance(x.value, ast.Name) and x.value.id in {
                     a.arg for a, d in zip(g.args.args[::-1], g.args.defaults[::-1]) if isinstance(d, ast.Constant)})
                 for x in x.targets if isinstance(x, ast.Attribute)}
        products = {demangle(cls, p) for p in products if p in mine or p not in elsewhere | inits}
        deps = cv.closure_reads(rf.body, rf) - products - {F}
        for name, f in cv.methods.items():
            if name in ("__init__", R):
                continue
            written = {a for a, _, _ in writes[name]}
            # products read
            first = None
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and demangle(cls, x.attr) in products:
                    if first is None or x.lineno < first.lineno:
                        first = x
            local_products = {x.attr for x in ast.walk(rf) if isinstance(x, ast.Attribute) and isinstance(
                x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in cv.selves(rf)}
            if first is not None and not (written & local_products) and not name.startswith("_"):
                st["refresh_reads"] = st.get("refresh_reads", 0) + 1
                if not refreshed_before(cv, f, first, F, R):
                    out.append(mk("C19", "not-refreshed", m, first, q + "." + name, "reads '%s' (line %d) without calling %s "
                                  "first when it is outdated: the result depends on earlier calls" % (
                                      first.attr, first.lineno, R), F))
            for a, w, v in writes[name]:
                if a in deps and not (written & products) and not any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == R
                        for x in ast.walk(f)):
                    if not any(a2 == F and isinstance(v2, ast.Constant) and v2.value is True
                               for a2, _, v2 in writes[name]) and not all_reset(name, F):
                        out.append(mk("C19", "stale-cache", m, w, q + "." + name, "changes '%s' (line %d) without marking "
                                      "'%s'" % (a, w.lineno, F), F + "|" + a))
    return out


def refreshed_before(cv, f, node, F, R, seen=()):
    sv = cv.selves(f)
    for x in ast.walk(f):
        if getattr(x, "lineno", 10 ** 9) >= node.lineno:
            continue
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                x.func.value.id in sv:
            if x.func.attr == R:
                return True
            g = cv.methods.get(x.func.attr)
            if g is not None and x.func.attr not in seen and any(
                    isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == R
                    for s in g.body for y in ast.walk(s)):
                return True
    return False


# ------------------------------------------------------------------------------------------------ memoisation
def memo(sc, m, cls, fn, q, st):
    out = []
    imps = sc.local_imports(fn)
    for d in fn.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        nm = canon(sc.dotted(m, fn, t, imps))
        if isinstance(nm, str) and nm in CACHING:
            st["memo"] += 1
            if cls is not None:
                out.append(mk("C19", "cached-method", m, fn, q, "a method reading the object is cached by %s: the cached "
                              "value survives changes of the object" % nm, nm))
    # wrapper functions storing results under a key
    keys = {}
    names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    va = fn.args.vararg.arg if fn.args.vararg else None
    kw = fn.args.kwarg.arg if fn.args.kwarg else None
    pars = set(names) | {x for x in (va, kw) if x}
    for n in walk_local(fn.body):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and \
                isinstance(n.targets[0].value, ast.Name) and isinstance(n.value, ast.Call):
            store = n.targets[0].value.id
            if store in pars or any(isinstance(x, ast.Name) and x.id == store and isinstance(x.ctx, ast.Store)
                                    for x in walk_local(fn.body)):
                continue        # local dictionary
            passed = set()
            for a in list(n.value.args) + [k.value for k in n.value.keywords]:
                passed |= names_in(a)
            passed &= pars
            key = names_in(n.targets[0].slice)
            for _ in range(4):
                for x in walk_local(fn.body):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id in key for t in x.targets):
                        key = key | names_in(x.value)
            st["memo"] += 1
            miss = sorted(passed - key)
            if miss:
                out.append(mk("C19", "memo-key", m, n, q, "the key of the stored results does not contain %s" % ", ".join(
                    miss), store))
    return out


def c19(root, tier):
    prog = Program(root)
    sc = Scope(prog)
    fs = []
    st = {"functions": 0, "sources": 0, "stores": 0, "caches": 0, "invalidations": 0, "memo": 0, "classes": 0}
    for m, cls, fn, q in sc.functions():
        st["functions"] += 1
        fs += nondeterminism(sc, m, cls, fn, q, st)
        fs += memo(sc, m, cls, fn, q, st)
    fs += module_state(sc, prog, st)
    for m in prog.modules.values():
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef):
                st["classes"] += 1
                fs += caches(m, c, m.name + "." + c.name, st)
    if st["functions"] < 500 or st["stores"] < 1000 or st["classes"] < 20:
        raise SystemExit("C19: too few sites analysed")
    st["explanation"] = ("taint from clock, process and unseeded random sources to results; writes to module or class level "
                         "state; values kept on objects are dropped whenever what they were computed from changes; "
                         "memoisation keys contain every argument")
    seen, out = set(), []
    for f in fs:
        if f["key"] not in seen:
            seen.add(f["key"])
            out.append(f)
    return {"findings": out, "coverage": st, "assumptions": [
        "third party functions are deterministic functions of their arguments, random generators excepted"]}
