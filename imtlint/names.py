"""C12, syntactic part: every name, import, attribute and call signature that can be resolved from the source resolves.

Only positive evidence is reported: a name bound nowhere in scope, an attribute no class of the hierarchy ever defines,
a call that no parameter list of the resolved callee accepts, a local that no path can have assigned."""
import ast
import os
from .prog import FuncInfo, ClassInfo, PropInfo, Module, walk_local, resolve_rel, BUILTINS, PKG

EXC_OF = {"name": {"NameError", "UnboundLocalError"}, "attr": {"AttributeError"}, "call": {"TypeError"},
          "import": {"ImportError", "ModuleNotFoundError"}}


def _handled(handlers, kind):
    for h in handlers:
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
            if n in ("Exception", "BaseException") or n in EXC_OF[kind]:
                return True
    return False


def signature_error(fi, call, skip_self):
    """None when the call may fit the signature, else a message."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    params = list(fi.params)
    if skip_self:
        params = params[1:]
    pos = [a for a in call.args if not isinstance(a, ast.Starred)]
    if not fi.vararg and len(pos) > len(params):
        return "takes %d positional argument(s) but %d are given" % (len(params), len(pos))
    given = set(params[:len(pos)])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return "got several values for argument '%s'" % k.arg
        if k.arg not in params and k.arg not in fi.kwonly and not fi.kwarg:
            return "got an unexpected keyword argument '%s'" % k.arg
        given.add(k.arg)
    if not star:
        miss = [p for p in params if p not in given and p not in fi.defaults]
        miss += [p for p in fi.kwonly if p not in given and p not in fi.kwdefaults]
        if miss:
            return "is missing the required argument(s) %s" % ", ".join(repr(m) for m in miss)
    return None


def constructible(ci):
    init = ci.lookup("__init__")
    if not isinstance(init, FuncInfo):
        return True
    for n in init.node.body:
        if isinstance(n, ast.Raise):
            return False
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return True
    return True


class Checker(object):
    def __init__(self, prog):
        self.prog = prog
        self.out = []
        self.stats = {"functions": 0, "names": 0, "attributes": 0, "calls": 0, "imports": 0, "locals_checked": 0}
        self.np_names = self._numpy_names()

    @staticmethod
    def _numpy_names():
        """names exported by the installed numpy, read from its stub file"""
        import glob
        import re
        for p in glob.glob("/opt/venv/lib/python3*/site-packages/numpy/__init__.pyi"):
            try:
                s = open(p, encoding="utf-8").read()
                d = os.path.dirname(p)
                subs = {os.path.splitext(x)[0] for x in os.listdir(d)}
                return set(re.findall(r"[A-Za-z_]\w*", s)) | subs
            except OSError:
                return None
        return None

    def report(self, kind, fi_or_mod, node, msg, key):
        if isinstance(fi_or_mod, FuncInfo):
            qual, rel = fi_or_mod.qual, fi_or_mod.module.rel
        else:
            qual, rel = fi_or_mod.name, fi_or_mod.rel
        self.out.append({"prop": "C12", "rule": kind, "file": rel, "line": getattr(node, "lineno", 0),
                         "func": qual, "msg": "%s: %s" % (qual.split(".", 1)[-1], msg),
                         "key": "C12|%s|%s|%s" % (kind, qual, key), "extra": {}})

    # ---------------------------------------------------------------- scopes
    def run(self):
        for m in self.prog.modules.values():
            self.imports(m, m.tree)
        for m in self.prog.modules.values():
            self.scope_module(m)
        return self.out

    def scope_module(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                pass
        self.visit_body(m, m.tree.body, None, [], [])

    def visit_body(self, m, body, cls, outer, guards):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.function(m, n, cls, outer, guards)
            elif isinstance(n, ast.ClassDef):
                ci = None
                for c in self.prog.classes.values():
                    if c.node is n:
                        ci = c
                if ci is not None and not constructible(ci):
                    continue
                self.visit_body(m, n.body, ci, outer, guards)
            elif isinstance(n, ast.Try):
                self.visit_body(m, n.body, cls, outer, guards)
                for h in n.handlers:
                    self.visit_body(m, h.body, cls, outer, guards)
                self.visit_body(m, n.orelse + n.finalbody, cls, outer, guards)
            elif isinstance(n, ast.If):
                self.visit_body(m, n.body + n.orelse, cls, outer, guards)

    def function(self, m, node, cls, outer, guards):
        fi = self.prog.by_node.get(node)
        if fi is None:
            fi = FuncInfo(node, m, cls, m.name + "." + (cls.name + "." if cls else "") + node.name)
        self.stats["functions"] += 1
        self.cur = fi
        self.mod = m
        scopes = outer + [fi.locals]
        self.types = self.local_types(fi, m)
        may = set(fi.params) | set(fi.kwonly) | {x for x in (fi.vararg, fi.kwarg) if x}
        ctx = {"fi": fi, "m": m, "cls": cls, "scopes": scopes, "types": self.types, "outer": outer}
        self.stmts(node.body, may, ctx, [])

    def local_types(self, fi, m):
        """locals that are only ever bound by calls of one package class"""
        t = {}
        bad = set(fi.params) | set(fi.kwonly)
        for n in walk_local(fi.node.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                c = None
                if isinstance(n.value, ast.Call):
                    c = self.resolve(n.value.func, fi, m)
                if isinstance(c, ClassInfo):
                    if t.setdefault(nm, c) is not c:
                        bad.add(nm)
                else:
                    bad.add(nm)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                pass
            if isinstance(n, (ast.For, ast.AugAssign, ast.With, ast.withitem, ast.comprehension, ast.NamedExpr,
                              ast.Tuple, ast.List, ast.Delete, ast.AnnAssign)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        if isinstance(n, (ast.For,)) and x not in list(ast.walk(n.target)):
                            continue
                        if isinstance(n, ast.With) and not any(x in list(ast.walk(i)) for i in n.items):
                            continue
                        bad.add(x.id)
        return {k: v for k, v in t.items() if k not in bad and k not in fi.globals_decl}

    def resolve(self, node, fi, m):
        """static target of a Name/Attribute chain, local imports included"""
        if isinstance(node, ast.Name):
            if fi is not None and node.id in fi.locals:
                for n in walk_local(fi.node.body):
                    if isinstance(n, ast.ImportFrom):
                        for al in n.names:
                            if (al.asname or al.name) == node.id:
                                return self.prog.resolve_binding(
                                    m, ("from", resolve_rel(m, n.level, n.module), al.name))
                    elif isinstance(n, ast.Import):
                        for al in n.names:
                            if (al.asname or al.name.split(".")[0]) == node.id:
                                return self.prog.resolve_binding(m, ("mod", al.name if al.asname else
                                                                     al.name.split(".")[0]))
                return None
            return self.prog.resolve_static(m, node)
        if isinstance(node, ast.Attribute):
            b = self.resolve(node.value, fi, m)
            if isinstance(b, Module):
                bl = self.prog.module_lookup(b, node.attr)
                if bl is None:
                    return None
                if len(bl) > 1:
                    return None
                return self.prog.resolve_binding(b, bl[-1])
            if isinstance(b, ClassInfo):
                return b.lookup(b.mangle(node.attr))
            if isinstance(b, str):
                return b + "." + node.attr
        return None

    # ---------------------------------------------------------------- statements (may-assigned walk)
    def stmts(self, body, may, ctx, guards):
        for n in body:
            self.stmt(n, may, ctx, guards)
            if isinstance(n, (ast.Raise, ast.Return, ast.Break, ast.Continue)):
                break       # what follows is dead

    @staticmethod
    def stores(n):
        r = set()
        for x in walk_local([n]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                r.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    r.add(al.asname or al.name.split(".")[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
        return r

    def stmt(self, n, may, ctx, guards):
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.expr(d, may, ctx, guards)
            may.add(n.name)
            save = self.types
            self.function(ctx["m"], n, ctx["cls"], ctx["scopes"], guards)
            self.types = save
            return
        if isinstance(n, ast.ClassDef):
            may.add(n.name)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            may |= self.stores(n)
            return
        if isinstance(n, ast.If):
            self.expr(n.test, may, ctx, guards)
            a, b = set(may), set(may)
            self.stmts(n.body, a, ctx, guards)
            self.stmts(n.orelse, b, ctx, guards)
            may |= a | b
            return
        if isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                self.expr(n.iter, may, ctx, guards)
                may |= self.stores(n)
                self.expr(n.target, may, ctx, guards)
            else:
                may |= self.stores(n)
                self.expr(n.test, may, ctx, guards)
            self.stmts(n.body, may, ctx, guards)
            self.stmts(n.orelse, may, ctx, guards)
            return
        if isinstance(n, ast.Try):
            self.stmts(n.body, may, ctx, guards + [n.handlers])
            for h in n.handlers:
                if h.type is not None:
                    self.expr(h.type, may, ctx, guards)
                if h.name:
                    may.add(h.name)
                self.stmts(h.body, may, ctx, guards)
            self.stmts(n.orelse, may, ctx, guards)
            self.stmts(n.finalbody, may, ctx, guards)
            return
        if isinstance(n, ast.With):
            for i in n.items:
                self.expr(i.context_expr, may, ctx, guards)
            may |= self.stores(n)
            self.stmts(n.body, may, ctx, guards)
            return
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                self.name(n.target, may, ctx, guards)
            self.expr(n.target, may, ctx, guards)
            self.expr(n.value, may, ctx, guards)
            may |= self.stores(n)
            return
        if isinstance(n, ast.Assign):
            self.expr(n.value, may, ctx, guards)
            may |= self.stores(n)
            for t in n.targets:
                self.expr(t, may, ctx, guards)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            return
        for c in ast.iter_child_nodes(n):
            self.expr(c, may, ctx, guards)
        may |= self.stores(n)

    # ---------------------------------------------------------------- expressions
    def expr(self, e, may, ctx, guards, bound=frozenset()):
        if isinstance(e, ast.Lambda):
            a = e.args
            b = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            for d in a.defaults:
                self.expr(d, may, ctx, guards, bound)
            # run later: local assignments that come afterwards are visible
            self.expr(e.body, may | ctx["fi"].locals, ctx, guards, bound | b)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in e.generators:
                self.expr(g.iter, may, ctx, guards, frozenset(b))
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        b.add(x.id)
                for i in g.ifs:
                    self.expr(i, may, ctx, guards, frozenset(b))
            fb = frozenset(b)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, may, ctx, guards, fb)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                self.name(e, may, ctx, guards)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, may, ctx, guards, bound)
            may.add(e.target.id)
            return
        if isinstance(e, ast.Attribute):
            self.attribute(e, may, ctx, guards, bound)
        if isinstance(e, ast.Call):
            self.call(e, may, ctx, guards, bound)
        for c in ast.iter_child_nodes(e):
            self.expr(c, may, ctx, guards, bound)

    def name(self, e, may, ctx, guards):
        self.stats["names"] += 1
        fi, m = ctx["fi"], ctx["m"]
        if any(_handled(h, "name") for h in guards):
            return
        if e.id in fi.locals:
            self.stats["locals_checked"] += 1
            if e.id not in may:
                self.report("unbound-local", fi, e, "local variable '%s' is read where no path has assigned it" % e.id,
                            e.id)
            return
        if any(e.id in s for s in ctx["outer"]):
            return
        if self.prog.module_lookup(m, e.id) is not None or e.id in BUILTINS or \
                e.id in ("__file__", "__name__", "__doc__", "__class__"):
            return
        if e.id in getattr(fi, "globals_decl", ()):
            return
        if any(s not in self.prog.modules for s in m.star):
            return
        self.report("undefined-name", fi, e, "name '%s' is not defined" % e.id, e.id)

    def hierarchy(self, c):
        return [c] + list(self.prog.subclasses(c))

    def attribute(self, e, may, ctx, guards, bound):
        fi, m, cls = ctx["fi"], ctx["m"], ctx["cls"]
        if any(_handled(h, "attr") for h in guards):
            return
        v = e.value
        if isinstance(v, ast.Name) and v.id not in bound:
            if v.id == "self" and cls is not None and fi.params[:1] == ["self"] or \
                    (v.id in ctx["types"] and v.id in fi.locals):
                c = cls if v.id == "self" else ctx["types"][v.id]
                if not isinstance(e.ctx, ast.Load) or c is None:
                    return
                self.stats["attributes"] += 1
                exact = v.id != "self"
                if exact and not self.settles(fi, v.id):
                    pass
                if not self.has_attr(c, e.attr, cls, exact, fi, v.id):
                    self.report("missing-attribute", fi, e, "%s (a %s) has no attribute '%s'" % (v.id, c.name, e.attr),
                                "%s.%s" % (c.name, e.attr))
                return
        r = self.resolve(v, fi, m) if isinstance(v, (ast.Name, ast.Attribute)) and \
            not (isinstance(v, ast.Name) and v.id in bound) else None
        if isinstance(r, Module):
            self.stats["attributes"] += 1
            if self.prog.module_lookup(r, e.attr) is None and not any(s not in self.prog.modules for s in r.star):
                self.report("missing-attribute", fi, e, "module %s has no attribute '%s'" % (r.name, e.attr),
                            "%s.%s" % (r.name, e.attr))
        elif isinstance(r, ClassInfo) and isinstance(e.ctx, ast.Load):
            self.stats["attributes"] += 1
            if not self.has_attr(r, e.attr, cls, True, fi, None):
                self.report("missing-attribute", fi, e, "class %s has no attribute '%s'" % (r.name, e.attr),
                            "%s.%s" % (r.name, e.attr))
        elif r == "numpy" and self.np_names is not None:
            self.stats["attributes"] += 1
            if e.attr not in self.np_names and not e.attr.startswith("__"):
                self.report("missing-attribute", fi, e, "numpy has no attribute '%s'" % e.attr, "numpy." + e.attr)

    @staticmethod
    def settles(fi, var):
        return True

    def has_attr(self, c, attr, cls, exact, fi, var):
        if hasattr(object, attr) or attr.startswith("__") and attr.endswith("__"):
            return True
        name = cls.mangle(attr) if cls is not None else attr
        cs = [c] if exact else self.hierarchy(c)
        for k in cs:
            if k.has_ext_base() or k.lookup("__getattr__") is not None or k.lookup("__getattribute__") is not None:
                return True
            if name in k.all_attrs() or k.lookup(name) is not None:
                return True
            for b in k.mro():
                if name in b.self_attrs or b.lookup(name) is not None:
                    return True
        # assigned from outside the class in this function or anywhere by a plain attribute store
        return name in self.foreign_stores()

    def foreign_stores(self):
        if not hasattr(self, "_fs"):
            self._fs = set()
            for m in self.prog.modules.values():
                inside = set()
                for c in ast.walk(m.tree):
                    if isinstance(c, ast.ClassDef):
                        for x in ast.walk(c):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                    isinstance(x.value, ast.Name) and x.value.id == "self":
                                inside.add(x)
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x not in inside:
                        self._fs.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and \
                            len(x.args) > 1:
                        if isinstance(x.args[1], ast.Constant):
                            self._fs.add(x.args[1].value)
        return self._fs

    def call(self, e, may, ctx, guards, bound):
        fi, m, cls = ctx["fi"], ctx["m"], ctx["cls"]
        if any(_handled(h, "call") for h in guards):
            return
        f = e.func
        target, skip, label = None, False, None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in bound:
            v = f.value.id
            c = None
            if v == "self" and cls is not None and fi.params[:1] == ["self"]:
                c = cls
            elif v in ctx["types"] and v in fi.locals:
                c = ctx["types"][v]
            if c is not None:
                target = c.lookup(c.mangle(f.attr) if c is cls else f.attr)
                if not isinstance(target, FuncInfo):
                    return
                skip = not target.is_static
                label = "%s.%s" % (c.name, f.attr)
        if target is None:
            if isinstance(f, ast.Name) and (f.id in bound or any(f.id in s for s in ctx["outer"])):
                return
            t = self.resolve(f, fi, m)
            if isinstance(t, ClassInfo):
                init = t.lookup("__init__")
                if t.has_ext_base():
                    return
                if init is None:
                    self.stats["calls"] += 1
                    if e.args or e.keywords:
                        self.report("bad-call", fi, e, "%s() takes no arguments" % t.name, t.name)
                    return
                if not isinstance(init, FuncInfo):
                    return
                target, skip, label = init, True, t.name
            elif isinstance(t, FuncInfo):
                target = t
                if isinstance(f, ast.Attribute) and isinstance(self.resolve(f.value, fi, m), ClassInfo):
                    skip = t.is_classm
                else:
                    skip = False
                label = t.qual.split(".", 1)[-1]
                if t.cls is None and isinstance(f, ast.Name):
                    bl = self.prog.module_lookup(m, f.id)
                    if bl is not None and len(bl) > 1:
                        return
        if target is None or target.decorated:
            return
        self.stats["calls"] += 1
        err = signature_error(target, e, skip)
        if err:
            self.report("bad-call", fi, e, "%s() %s" % (label, err), label + "|" + err)

    # ---------------------------------------------------------------- imports
    def imports(self, m, tree):
        guards = {}

        def walk(n, g):
            if isinstance(n, ast.Try):
                for b in n.body:
                    walk(b, g + [n.handlers])
                for h in n.handlers:
                    for b in h.body:
                        walk(b, g)
                for b in n.orelse + n.finalbody:
                    walk(b, g)
                return
            if isinstance(n, ast.ImportFrom) and not any(_handled(h, "import") for h in g):
                tgt = resolve_rel(m, n.level, n.module)
                if tgt.split(".")[0] == PKG:
                    self.stats["imports"] += 1
                    if tgt not in self.prog.modules:
                        self.report("bad-import", m, n, "no module named '%s'" % tgt, tgt)
                        return
                    for al in n.names:
                        if al.name != "*" and self.prog.module_lookup(self.prog.modules[tgt], al.name) is None and \
                                tgt + "." + al.name not in self.prog.modules:
                            self.report("bad-import", m, n, "cannot import name '%s' from '%s'" % (al.name, tgt),
                                        tgt + "." + al.name)
            elif isinstance(n, ast.Import) and not any(_handled(h, "import") for h in g):
                for al in n.names:
                    if al.name.split(".")[0] == PKG:
                        self.stats["imports"] += 1
                        if al.name not in self.prog.modules:
                            self.report("bad-import", m, n, "no module named '%s'" % al.name, al.name)
            for c in ast.iter_child_nodes(n):
                walk(c, g)
        walk(tree, [])


def decide(root, tier, facts_res=None):
    from .prog import Program
    c = Checker(Program(root))
    fs = c.run()
    return fs, c.stats
