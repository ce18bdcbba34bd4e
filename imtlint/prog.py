"""Program model: modules, imports, classes (MRO, properties), functions.  Nothing is imported or run:
everything is read from the syntax trees of the files under <repo>/IMTreatment."""
import ast
import os
import builtins as _b

PKG = "IMTreatment"
BUILTINS = set(dir(_b))


class AnalysisBroken(Exception):
    pass


class FuncInfo(object):
    __slots__ = ("node", "module", "cls", "qual", "params", "vararg", "kwarg", "kwonly", "defaults",
                 "kwdefaults", "is_gen", "is_static", "is_classm", "locals", "globals_decl", "has_nested",
                 "parent", "lambda_expr", "prop_role", "decorated")

    def __init__(self, node, module, cls, qual, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.parent = parent
        a = node.args
        self.params = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.kwdefaults = {k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None}
        self.lambda_expr = isinstance(node, ast.Lambda)
        self.is_static = self.is_classm = False
        self.prop_role = None
        self.decorated = False
        body = [node.body] if self.lambda_expr else node.body
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(body))
        self.globals_decl = set()
        loc = set(self.params) | set(self.kwonly)
        if self.vararg:
            loc.add(self.vararg)
        if self.kwarg:
            loc.add(self.kwarg)
        nested = False
        for n in walk_local(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
                nested = True
            elif isinstance(n, ast.Lambda):
                nested = True
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add(al.asname or al.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals_decl.update(n.names)
        self.locals = loc - self.globals_decl
        self.has_nested = nested

    @property
    def name(self):
        return "<lambda>" if self.lambda_expr else self.node.name

    @property
    def lineno(self):
        return self.node.lineno

    def __repr__(self):
        return "<Func %s>" % self.qual


def walk_local(body):
    """All nodes of a body, not descending into nested function/class/lambda bodies (those nodes themselves are
    yielded); comprehension targets are excluded from descending as stores (they have their own scope)."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend([d for d in n.args.kw_defaults if d is not None])
            continue
        if isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # only the first iterable is evaluated in this scope, but reads inside matter too; skip stores
            for g in n.generators:
                stack.append(g.iter)
                stack.extend(g.ifs)
            if isinstance(n, ast.DictComp):
                stack.extend([n.key, n.value])
            else:
                stack.append(n.elt)
            continue
        stack.extend(ast.iter_child_nodes(n))


class PropInfo(object):
    __slots__ = ("name", "fget", "fset", "fdel", "cls")

    def __init__(self, name, cls, fget=None, fset=None, fdel=None):
        self.name, self.cls, self.fget, self.fset, self.fdel = name, cls, fget, fset, fdel


class ClassInfo(object):
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.bases = []         # resolved ClassInfo
        self.ext_bases = []     # dotted names of external bases
        self.members = {}       # name -> FuncInfo | PropInfo | ('expr', node) | ClassInfo
        self._mro = None
        self.self_attrs = set()
        self.built = False

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            return "_" + self.name.lstrip("_") + name
        return name

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            res = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    break
                res.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = res
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def lookup_after(self, cls, name):
        m = self.mro()
        if cls in m:
            for c in m[m.index(cls) + 1:]:
                if name in c.members:
                    return c.members[name]
        return None

    def all_attrs(self):
        s = set()
        for c in self.mro():
            s |= c.self_attrs
            s |= set(c.members)
        return s

    def is_sub(self, other):
        return other in self.mro()

    def has_ext_base(self):
        return any(c.ext_bases for c in self.mro())

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.ns = {}       # name -> list of bindings
        self.star = []     # modules star-imported
        self.rel = None


def resolve_rel(mod, level, target):
    if level == 0:
        return target or ""
    parts = mod.name.split(".")
    if not mod.is_pkg:
        parts = parts[:-1]
    if level > 1:
        parts = parts[:len(parts) - (level - 1)]
    if target:
        parts = parts + target.split(".")
    return ".".join(parts)


class Program(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.functions = []     # all FuncInfo including nested (nested added on demand)
        self.classes = {}
        self.by_node = {}
        self._load()
        self._build()

    # ------------------------------------------------------------------ loading
    def _load(self):
        pkgdir = os.path.join(self.root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken("package directory %s not found" % pkgdir)
        for dp, dn, fn in os.walk(pkgdir):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "tests", "test"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                full = os.path.join(dp, f)
                rel = os.path.relpath(full, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(full, encoding="utf-8", errors="replace").read()
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                m = Module(name, full, tree, src)
                m.rel = rel
                self.modules[name] = m

    def _build(self):
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for m in self.modules.values():
            for n in m.tree.body:
                pass
        # resolve bases, then members (properties may refer to other classes)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_static(c.module, b)
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                elif isinstance(r, str):
                    if r != "builtins.object":
                        c.ext_bases.append(r)
        for c in self.classes.values():
            self._class_members(c)
        for c in self.classes.values():
            for f in ast.walk(c.node):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) \
                        and isinstance(f.value, ast.Name):
                    c.self_attrs.add(c.mangle(f.attr))

    def _collect(self, m, body):
        def bind(name, b):
            m.ns.setdefault(name, []).append(b)
        for n in body:
            if isinstance(n, ast.FunctionDef):
                fi = FuncInfo(n, m, None, m.name + "." + n.name)
                fi.decorated = bool(n.decorator_list)
                self.functions.append(fi)
                self.by_node[n] = fi
                bind(n.name, fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n, m, m.name + "." + n.name)
                self.classes[ci.qual] = ci
                bind(n.name, ci)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        bind(al.asname, ("mod", al.name))
                    else:
                        bind(al.name.split(".")[0], ("mod", al.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                tgt = resolve_rel(m, n.level, n.module)
                for al in n.names:
                    if al.name == "*":
                        m.star.append(tgt)
                    else:
                        bind(al.asname or al.name, ("from", tgt, al.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        bind(t.id, ("expr", n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                bind(e.id, ("item", n.value, i))
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(n.target, ast.Name):
                    bind(n.target.id, ("expr", n.value) if n.value is not None else ("unk",))
            elif isinstance(n, ast.Try):
                # an optional import is taken as present: its bindings (and flags set after it) come last, and win
                opt = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in n.body)
                if not opt:
                    self._collect(m, n.body)
                for h in n.handlers:
                    self._collect(m, h.body)
                if opt:
                    self._collect(m, n.body)
                self._collect(m, n.orelse)
                self._collect(m, n.finalbody)
            elif isinstance(n, ast.If):
                self._collect(m, n.body)
                self._collect(m, n.orelse)
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        bind(x.id, ("unk",))

    def module_lookup(self, mod, name, seen=None):
        """Binding list of a name in a module (following star imports); returns None when unbound."""
        if isinstance(mod, str):
            mod = self.modules.get(mod)
            if mod is None:
                return None
        seen = seen or set()
        if mod.name in seen:
            return None
        seen.add(mod.name)
        if name in mod.ns:
            return mod.ns[name]
        for s in mod.star:
            if s in self.modules:
                r = self.module_lookup(self.modules[s], name, seen)
                if r is not None:
                    return r
            elif name in EXT_STAR.get(s, ()):
                return [("from", s, name)]
        if mod.name + "." + name in self.modules and mod.is_pkg:
            return [("mod", mod.name + "." + name)]
        return None

    def resolve_binding(self, mod, b, depth=0):
        """-> FuncInfo | ClassInfo | Module | dotted-string (external) | ('expr', mod, node) | None"""
        if depth > 20:
            return None
        if isinstance(b, (FuncInfo, ClassInfo)):
            return b
        if b[0] == "mod":
            if b[1] in self.modules:
                return self.modules[b[1]]
            return b[1]
        if b[0] == "from":
            tgt, name = b[1], b[2]
            if tgt in self.modules:
                sub = tgt + "." + name
                bl = self.module_lookup(self.modules[tgt], name)
                if bl:
                    # a self-reference (package re-exporting its submodule) means the submodule
                    for x in reversed(bl):
                        if x == b and sub in self.modules:
                            return self.modules[sub]
                    return self.resolve_binding(self.modules[tgt], bl[-1], depth + 1)
                if sub in self.modules:
                    return self.modules[sub]
                return None
            if tgt.split(".")[0] == PKG:
                return None
            return tgt + "." + name
        if b[0] in ("expr", "item"):
            return (b[0], mod) + tuple(b[1:])
        return None

    def resolve_static(self, mod, node):
        """Resolve a Name/Attribute chain at module scope."""
        if isinstance(node, ast.Name):
            bl = self.module_lookup(mod, node.id)
            if bl is None:
                if node.id in BUILTINS:
                    return "builtins." + node.id
                return None
            return self.resolve_binding(mod, bl[-1])
        if isinstance(node, ast.Attribute):
            base = self.resolve_static(mod, node.value)
            if isinstance(base, Module):
                bl = self.module_lookup(base, node.attr)
                if bl is None:
                    return None
                return self.resolve_binding(base, bl[-1])
            if isinstance(base, ClassInfo):
                return base.lookup(base.mangle(node.attr))
            if isinstance(base, str):
                return base + "." + node.attr
        return None

    # ------------------------------------------------------------------ classes
    def _class_members(self, c):
        if c.built:
            return
        c.built = True
        for b in c.bases:
            self._class_members(b)
        self._members_of(c, c.node.body)

    def _members_of(self, c, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                name = c.mangle(n.name)
                fi = FuncInfo(n, c.module, c, c.qual + "." + n.name)
                self.functions.append(fi)
                self.by_node[n] = fi
                done = False
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        c.members[name] = PropInfo(name, c, fget=fi)
                        fi.prop_role = "get"
                        done = True
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        fi.is_static = True
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        fi.is_classm = True
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter"):
                        base = None
                        if isinstance(d.value, ast.Name):
                            base = c.members.get(c.mangle(d.value.id))
                        if base is None:
                            base = self.resolve_static(c.module, d.value)
                            if isinstance(base, PropInfo):
                                self._class_members(base.cls)
                                base = base.cls.members.get(base.name, base)
                        if isinstance(base, PropInfo):
                            p = PropInfo(name, c, base.fget, base.fset, base.fdel)
                        else:
                            p = PropInfo(name, c)
                        if d.attr == "setter":
                            p.fset = fi
                            fi.prop_role = "set"
                        elif d.attr == "deleter":
                            p.fdel = fi
                            fi.prop_role = "del"
                        else:
                            p.fget = fi
                        c.members[name] = p
                        done = True
                    else:
                        fi.decorated = True
                if not done:
                    c.members[name] = fi
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        nm = c.mangle(t.id)
                        if isinstance(n.value, ast.Name) and c.mangle(n.value.id) in c.members:
                            c.members[nm] = c.members[c.mangle(n.value.id)]
                        elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                                and n.value.func.id == "property":
                            args = [c.members.get(c.mangle(a.id)) if isinstance(a, ast.Name) else None
                                    for a in n.value.args]
                            kw = {k.arg: c.members.get(c.mangle(k.value.id)) if isinstance(k.value, ast.Name)
                                  else None for k in n.value.keywords}
                            args += [None] * 3
                            c.members[nm] = PropInfo(nm, c, args[0] or kw.get("fget"), args[1] or kw.get("fset"),
                                                     args[2] or kw.get("fdel"))
                        else:
                            c.members[nm] = ("expr", n.value)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n, c.module, c.qual + "." + n.name)
                self.classes_nested = True
                c.members[n.name] = ("unk",)
            elif isinstance(n, ast.If):
                self._members_of(c, n.body)
                self._members_of(c, n.orelse)

    def cls(self, shortname):
        """Class by short name; data-model classes have unique names."""
        hits = [c for c in self.classes.values() if c.name == shortname]
        return hits[0] if len(hits) == 1 else (hits[0] if hits else None)

    def subclasses(self, c):
        return [d for d in self.classes.values() if c in d.mro()]

    def func_location(self, fi):
        return "%s:%d" % (fi.module.rel, fi.lineno)


EXT_STAR = {}
