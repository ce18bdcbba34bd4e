"""C14, C15, C16, C19: effect and typestate rules over the syntax tree (no execution).

A small path walker (`Walk`) follows every statement with an abstract state and separates normal, return, raise, break
and continue outcomes; every statement that calls or indexes something has an exceptional edge."""
import ast
from .prog import Program, FuncInfo, ClassInfo, Module, walk_local, resolve_rel


# --------------------------------------------------------------------------------------------------------- helpers
class Scope(object):
    """resolves dotted names of a function, local imports included"""

    def __init__(self, prog):
        self.prog = prog

    def functions(self):
        for m in self.prog.modules.values():
            yield from self._in(m, m.tree.body, None, m.name)

    def _in(self, m, body, cls, qual):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + "." + n.name
                yield m, cls, n, q
                yield from self._in(m, n.body, cls, q)
            elif isinstance(n, ast.ClassDef):
                yield from self._in(m, n.body, n, qual + "." + n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    yield from self._in(m, getattr(n, f, []), cls, qual)
                for h in getattr(n, "handlers", []):
                    yield from self._in(m, h.body, cls, qual)

    def local_imports(self, fn):
        r = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Import):
                for al in n.names:
                    r[al.asname or al.name.split(".")[0]] = al.name if al.asname else al.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
                for al in n.names:
                    r[al.asname or al.name] = n.module + "." + al.name
        return r

    def dotted(self, m, fn, node, imports=None):
        """canonical dotted name of an expression, or None; package functions are returned as FuncInfo"""
        if imports is None:
            imports = self.local_imports(fn) if fn is not None else {}
        if isinstance(node, ast.Name):
            if node.id in imports:
                return imports[node.id]
            r = self.prog.resolve_static(m, node)
            if isinstance(r, Module):
                return r.name
            return r if isinstance(r, (str, FuncInfo, ClassInfo)) else None
        if isinstance(node, ast.Attribute):
            b = self.dotted(m, fn, node.value, imports)
            if isinstance(b, str):
                r = self.prog.resolve_static(m, node) if not isinstance(node.value, ast.Name) or \
                    node.value.id not in imports else None
                if isinstance(r, (FuncInfo, ClassInfo)):
                    return r
                return b + "." + node.attr
            if isinstance(b, ClassInfo):
                r = b.lookup(node.attr)
                return r if isinstance(r, FuncInfo) else None
        return None


def canon(d):
    if not isinstance(d, str):
        return d
    if d.startswith("np."):
        d = "numpy." + d[3:]
    if d.startswith("posix."):
        d = "os." + d[6:]
    if d == "builtins.open" or d == "io.open":
        return "open"
    if d.startswith("builtins."):
        return d[9:]
    return d


def mk(prop, rule, m, node, qual, msg, key, **extra):
    return {"prop": prop, "rule": rule, "file": m.rel, "line": getattr(node, "lineno", 0), "func": qual,
            "msg": "%s: %s" % (qual.split(".", 1)[-1], msg), "key": "%s|%s|%s|%s" % (prop, rule, qual, key),
            "extra": extra}


def const_strs(node):
    """set of strings of a constant list/tuple/set/str, or None"""
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
        if all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in node.elts):
            return {x.value for x in node.elts}
        return None
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return {node.value}
    return None


# --------------------------------------------------------------------------------------------------------- C16
EXEC_SINKS = {"exec", "eval", "compile", "__import__", "execfile", "os.system", "os.popen", "subprocess.run",
              "subprocess.call", "subprocess.Popen", "subprocess.check_output", "subprocess.check_call",
              "subprocess.getoutput", "os.execv", "os.spawnl", "code.interact", "importlib.import_module",
              "runpy.run_path", "sympy.sympify", "sympy.parse_expr", "sympy.parsing.sympy_parser.parse_expr",
              "numexpr.evaluate", "pandas.eval", "yaml.load", "imp.load_source", "builtins.exec", "ctypes.CDLL"}
DESER = {"pickle.load", "pickle.loads", "dill.load", "dill.loads", "marshal.load", "marshal.loads", "joblib.load",
         "shelve.open", "cPickle.load", "pandas.read_pickle"}
# the pickle based storage formats, documented as such: function -> formats
DESER_OK = {"IMTreatment.file_operation.file_operation.import_from_file",
            "IMTreatment.utils.memoization.memoize_to_file"}


def _const_tree(node):
    return all(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.JoinedStr, ast.BinOp, ast.Add,
                              ast.expr_context)) for x in ast.walk(node)) and not any(
        isinstance(x, ast.FormattedValue) for x in ast.walk(node))


def _restricted_env(node):
    """{"__builtins__": {}} or {"__builtins__": None}, possibly with more constant-keyed names"""
    if not isinstance(node, ast.Dict):
        return False
    for k, v in zip(node.keys, node.values):
        if isinstance(k, ast.Constant) and k.value == "__builtins__":
            return (isinstance(v, ast.Dict) and not v.keys) or (isinstance(v, ast.Constant) and v.value is None)
    return False


def c16(root, tier):
    prog = Program(root)
    sc = Scope(prog)
    fs = []
    st = {"functions": 0, "calls": 0, "execution_sinks": 0, "deserialisers": 0}
    flow = StrFlow(prog, sc)
    for m, cls, fn, q in sc.functions():
        st["functions"] += 1
        imps = sc.local_imports(fn)
        for n in walk_local(fn.body):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                d = canon(sc.dotted(m, fn, n, imps))
                # a sink passed around as a value
                if d in EXEC_SINKS and not any(isinstance(c, ast.Call) and c.func is n for c in walk_local(fn.body)):
                    fs.append(mk("C16", "execution-alias", m, n, q, "%s is used as a value" % d, d))
            if not isinstance(n, ast.Call):
                continue
            st["calls"] += 1
            d = canon(sc.dotted(m, fn, n.func, imps))
            if d == "numpy.load" and any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and
                                                                        k.value.value is False) for k in n.keywords):
                d = "pickle.load"
            if d in DESER:
                st["deserialisers"] += 1
                if not any(q == x or q.startswith(x + ".") for x in DESER_OK) and \
                        not flow.only_called_from(q, DESER_OK):
                    fs.append(mk("C16", "deserialiser", m, n, q, "%s reads executable data outside the documented "
                                 "object file functions" % d, d))
            if d in EXEC_SINKS:
                st["execution_sinks"] += 1
                if d in ("exec", "eval", "compile", "sympy.sympify", "sympy.parse_expr") or n.args:
                    if n.args and _const_tree(n.args[0]):
                        continue
                    env = n.args[1] if len(n.args) > 1 else None
                    for k in n.keywords:
                        if k.arg == "globals":
                            env = k.value
                    src = n.args[0] if n.args else None
                    if d == "eval" and env is not None and flow.is_restricted(m, fn, env) and \
                            flow.internal_source(m, cls, fn, src):
                        continue
                    if d == "compile" and not n.args:
                        continue
                    fs.append(mk("C16", "code-execution", m, n, q,
                                 "%s is applied to text that is not fixed in the source" % d, d,
                                 argument=ast.unparse(src) if src is not None else ""))
    # the unit parser: what it returns must be built from the units module and numbers only
    fs += flow.unit_parser(st)
    if st["functions"] < 500:
        raise SystemExit("C16: too few functions analysed")
    st["explanation"] = ("every call (and every use as a value) of a code-execution or deserialisation primitive in the "
                        "package; a call is accepted only with a constant program text, or - eval - with an empty "
                        "builtins table and a text produced by the package itself from constants or a symbolic solver; "
                        "attribute look-ups by computed name in the unit parser are checked to be type-guarded")
    return {"findings": fs, "coverage": st, "assumptions": [
        "names of builtins are not rebound at run time",
        "pickle based object files (.imt/.cimt) are a documented, trusted format"]}


class StrFlow(object):
    """backward origin of the text handed to an execution primitive inside one function"""

    def __init__(self, prog, sc):
        self.prog, self.sc = prog, sc
        self._callers = None

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for m, cls, fn, q in self.sc.functions():
                imps = self.sc.local_imports(fn)
                for n in walk_local(fn.body):
                    if isinstance(n, ast.Call):
                        d = self.sc.dotted(m, fn, n.func, imps)
                        if isinstance(d, FuncInfo):
                            self._callers.setdefault(d.qual, set()).add(q)
                        if isinstance(n.func, ast.Attribute):
                            self._callers.setdefault("." + n.func.attr, set()).add(q)
                    elif isinstance(n, ast.Name):
                        d = self.sc.dotted(m, fn, n, imps)
                        if isinstance(d, FuncInfo):
                            self._callers.setdefault(d.qual, set()).add(q)
        return self._callers

    def only_called_from(self, q, roots, seen=()):
        """q is a private helper whose every caller is one of roots"""
        name = q.rsplit(".", 1)[1]
        if not name.startswith("_") or q in seen:
            return False
        cs = set(self.callers().get(q, ())) | set(self.callers().get("." + name, ()))
        return bool(cs) and all(any(c == r or c.startswith(r + ".") for r in roots) or
                                self.only_called_from(c, roots, seen + (q,)) for c in cs)

    def is_restricted(self, m, fn, env):
        if _restricted_env(env):
            return True
        if isinstance(env, ast.Name):
            vals = [n.value for n in walk_local(fn.body) if isinstance(n, ast.Assign) and
                    any(isinstance(t, ast.Name) and t.id == env.id for t in n.targets)]
            if not vals:
                r = self.prog.resolve_static(m, env)
                if isinstance(r, tuple) and r[0] == "expr":
                    vals = [r[2]]
            return bool(vals) and all(_restricted_env(v) for v in vals)
        return False

    def internal_source(self, m, cls, fn, src, depth=0):
        """the text does not come from a parameter holding caller text or from a file: accepted origins are constants,
        locals/closure variables built from constants or from results of a symbolic solver, attributes set so"""
        if depth > 8 or src is None:
            return False
        if isinstance(src, (ast.Constant,)):
            return True
        for x in ast.walk(src):
            if isinstance(x, ast.Call):
                d = canon(self.sc.dotted(m, fn, x.func))
                if d in ("input", "open") or (isinstance(x.func, ast.Attribute) and x.func.attr in
                                              ("read", "readline", "readlines")):
                    return False
        names = {x.id for x in ast.walk(src) if isinstance(x, ast.Name)}
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        ok = True
        for nm in names:
            if nm in params and nm != "self":
                ok = self.param_internal(m, cls, fn, nm, depth)
                if not ok:
                    return False
        return ok

    def param_internal(self, m, cls, fn, nm, depth):
        """every call inside the package passes a constant for this parameter"""
        pos = [a.arg for a in fn.args.args].index(nm) if nm in [a.arg for a in fn.args.args] else None
        found = 0
        for m2, c2, f2, q2 in self.sc.functions():
            for n in walk_local(f2.body):
                if isinstance(n, ast.Call):
                    nmf = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(
                        n.func, ast.Name) else None
                    if nmf != fn.name:
                        continue
                    off = 1 if (isinstance(n.func, ast.Attribute) and fn.args.args[:1] and
                                fn.args.args[0].arg == "self") else 0
                    arg = None
                    for k in n.keywords:
                        if k.arg == nm:
                            arg = k.value
                    if arg is None and pos is not None and 0 <= pos - off < len(n.args):
                        arg = n.args[pos - off]
                    if arg is None:
                        continue
                    found += 1
                    if not self.internal_source(m2, c2, f2, arg, depth + 1):
                        return False
        return found > 0 and (fn.name.startswith("_") or cls is None or True) and fn.name.startswith("_")

    def unit_parser(self, st):
        """in utils.units: attribute look-ups by a computed name may only hand out Unum objects"""
        out = []
        st["unit_lookups"] = 0
        m = self.prog.modules.get("IMTreatment.utils.units")
        if m is None or not any(f.qual == "IMTreatment.utils.units.make_unit" for f in self.prog.functions):
            raise SystemExit("C16: make_unit not found")
        for m2, cls, fn, q in self.sc.functions():
            if m2 is not m:
                continue
            for n in walk_local(fn.body):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and \
                        len(n.args) > 1 and not isinstance(n.args[1], ast.Constant):
                    st["unit_lookups"] += 1
                    tgt = None
                    for a in walk_local(fn.body):
                        if isinstance(a, ast.Assign) and a.value is n and isinstance(a.targets[0], ast.Name):
                            tgt = a.targets[0].id
                    guarded = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "isinstance"
                                  and isinstance(c.args[0], ast.Name) and c.args[0].id == tgt
                                  for c in walk_local(fn.body))
                    if not guarded:
                        out.append(mk("C16", "unguarded-lookup", m, n, q, "the object found under a name taken from the "
                                      "unit text is used without checking that it is a unit", "getattr"))
        return out


# --------------------------------------------------------------------------------------------------------- C15
FILE_OPEN = {"open", "gzip.open", "bz2.open", "lzma.open", "io.open", "codecs.open", "os.fdopen", "zipfile.ZipFile",
             "tarfile.open", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "h5py.File", "os.open", "os.dup"}
# call -> (kind, 'acquire'/'release'); kinds are process-wide
STATE_CALLS = {
    "gc.disable": ("garbage collection", "acquire"), "gc.enable": ("garbage collection", "release"),
    "numpy.seterr": ("numpy error handling", "toggle"), "numpy.seterrcall": ("numpy error handling", "toggle"),
    "numpy.set_printoptions": ("numpy print options", "toggle"),
    "os.chdir": ("working directory", "toggle"), "sys.setrecursionlimit": ("recursion limit", "toggle"),
    "numpy.random.seed": ("random state", "toggle"), "random.seed": ("random state", "toggle"),
    "numpy.random.set_state": ("random state", "toggle"), "locale.setlocale": ("locale", "toggle"),
    "os.umask": ("umask", "toggle"), "signal.signal": ("signal handlers", "toggle"),
    "warnings.filterwarnings": ("warning filters", "scoped"), "warnings.simplefilter": ("warning filters", "scoped"),
    "warnings.resetwarnings": ("warning filters", "scoped"),
    "matplotlib.use": ("plotting configuration", "toggle"), "matplotlib.rc": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.rc": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.switch_backend": ("plotting configuration", "toggle"),
    "matplotlib.rcdefaults": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.rcdefaults": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.ion": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.ioff": ("plotting configuration", "toggle"),
    "matplotlib.pyplot.style.use": ("plotting configuration", "toggle"),
    "matplotlib.style.use": ("plotting configuration", "toggle"),
    "os.putenv": ("environment", "toggle"), "os.dup2": ("file descriptors", "toggle"),
    "unum.Unum.reset": ("unit table", "toggle"), "sys.settrace": ("tracing", "toggle"),
    "numpy.errstate": None,
}
STATE_TARGETS = {"sys.stdout": "standard output", "sys.stderr": "standard output", "sys.stdin": "standard output",
                 "os.environ": "environment", "matplotlib.rcParams": "plotting configuration",
                 "matplotlib.pyplot.rcParams": "plotting configuration", "sys.path": "module search path",
                 "sys.argv": "arguments"}
STATE_SCOPES = {"warning filters": {"warnings.catch_warnings"}, "numpy error handling": {"numpy.errstate"},
                "plotting configuration": {"matplotlib.rc_context", "matplotlib.pyplot.rc_context",
                                           "matplotlib.pyplot.style.context", "matplotlib.style.context"},
                "numpy print options": {"numpy.printoptions"},
                "standard output": {"contextlib.redirect_stdout", "contextlib.redirect_stderr"}}
# functions whose documented purpose is to change the configuration
STATE_OK = {"IMTreatment.plotlib.plotlib.use_perso_style": {"plotting configuration"}}


class Held(object):
    """abstract state: held = frozenset of (kind, key, line, var)"""


NORMAL, RET, EXC, BRK, CNT = "normal", "return", "raise", "break", "continue"


class TypeState(object):
    def __init__(self, sc, m, cls, fn, q, summaries):
        self.sc, self.m, self.cls, self.fn, self.q = sc, m, cls, fn, q
        self.imps = sc.local_imports(fn)
        self.sums = summaries
        self.sites = 0
        self.escaped = set()
        # names that hold a saved state (x = gc.isenabled(), x = np.seterr(...), x = os.getcwd())
        self.saved = set()
        for n in walk_local(fn.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t = n.targets[0]
                names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
                v = n.value
                if isinstance(v, ast.Call):
                    d = canon(sc.dotted(m, fn, v.func, self.imps))
                    if d in ("gc.isenabled", "numpy.seterr", "numpy.geterr", "os.getcwd", "numpy.random.get_state",
                             "sys.getrecursionlimit", "os.dup", "numpy.get_printoptions", "locale.getlocale",
                             "matplotlib.get_backend", "signal.getsignal", "numpy.seterrcall", "os.umask",
                             "matplotlib.rcParams.copy", "dict", "matplotlib.pyplot.rcParams.copy",
                             "os.environ.get", "matplotlib.pyplot.isinteractive", "matplotlib.is_interactive"):
                        self.saved.update(names)
                elif isinstance(v, (ast.Attribute, ast.Subscript)):
                    d = canon(sc.dotted(m, fn, v.value if isinstance(v, ast.Subscript) else v, self.imps))
                    if d in STATE_TARGETS:
                        self.saved.update(names)

    def call_name(self, c):
        return canon(self.sc.dotted(self.m, self.fn, c.func, self.imps))

    # ---- transfer of an expression
    def expr(self, e, held, scopes, var=None):
        if e is None:
            return held
        for n in self.walk_expr(e):
            if not isinstance(n, ast.Call):
                continue
            d = self.call_name(n)
            if isinstance(d, FuncInfo):
                s = self.sums.get(d.qual)
                if s:
                    for k in s["acquires"]:
                        held = held | {(k, d.qual, n.lineno, None)}
                    for k in s["releases"]:
                        held = frozenset(h for h in held if h[0] != k)
                # a file handed to another function may be closed there
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name):
                        held = frozenset(h for h in held if h[3] != a.id)
                continue
            if d in FILE_OPEN:
                self.sites += 1
                if var is not None and e is n:
                    held = held | {("open file", d, n.lineno, var)}
                elif not getattr(n, "_in_with", False) and not self.sink_ok(e, n):
                    held = held | {("open file", d, n.lineno, None)}
            elif d in STATE_CALLS and STATE_CALLS[d]:
                kind, what = STATE_CALLS[d]
                self.sites += 1
                if STATE_SCOPES.get(kind, set()) & scopes:
                    continue
                if what == "release":
                    held = frozenset(h for h in held if h[0] != kind)
                elif what == "toggle" and self.restores(n):
                    held = frozenset(h for h in held if h[0] != kind)
                else:
                    held = held | {(kind, d, n.lineno, None)}
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("close", "release", "__exit__") and \
                    isinstance(n.func.value, ast.Name):
                held = frozenset(h for h in held if h[3] != n.func.value.id)
            elif d == "os.close" and n.args and isinstance(n.args[0], ast.Name):
                held = frozenset(h for h in held if h[3] != n.args[0].id)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "update" and \
                    canon(self.sc.dotted(self.m, self.fn, n.func.value, self.imps)) in STATE_TARGETS:
                kind = STATE_TARGETS[canon(self.sc.dotted(self.m, self.fn, n.func.value, self.imps))]
                if not (STATE_SCOPES.get(kind, set()) & scopes):
                    if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in self.saved:
                        held = frozenset(h for h in held if h[0] != kind)
                    else:
                        held = held | {(kind, "update", n.lineno, None)}
        return held

    @staticmethod
    def walk_expr(e):
        """post-order (evaluation order is close enough), lambda bodies excluded"""
        if isinstance(e, ast.Lambda):
            return
        for c in ast.iter_child_nodes(e):
            yield from TypeState.walk_expr(c)
        yield e

    def sink_ok(self, e, n):
        """the opened file is consumed by an enclosing call (contextlib.closing, np.loadtxt(open()))..."""
        return any(isinstance(x, ast.Call) and x is not n and n in list(x.args) and
                   canon(self.sc.dotted(self.m, self.fn, x.func, self.imps)) in ("contextlib.closing",)
                   for x in ast.walk(e))

    def restores(self, call):
        for a in list(call.args) + [k.value for k in call.keywords]:
            for x in ast.walk(a):
                if isinstance(x, ast.Name) and x.id in self.saved:
                    return True
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and \
                        self.fn.name in ("__exit__", "restore"):
                    return True
        return False

    @staticmethod
    def may_raise(n):
        return any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Raise, ast.Assert, ast.Compare))
                   for x in walk_local([n]))

    def _only_release(self, body):
        for b in body:
            if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call)):
                return None
        kinds, vars_ = set(), set()
        for b in body:
            d = self.call_name(b.value)
            w = STATE_CALLS.get(d) if isinstance(d, str) else None
            if w and (w[1] == "release" or (w[1] == "toggle" and self.restores(b.value))):
                kinds.add(w[0])
            elif isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "close" and \
                    isinstance(b.value.func.value, ast.Name):
                vars_.add(b.value.func.value.id)
            else:
                return None
        return (kinds, vars_) if kinds or vars_ else None

    # ---- statements: states is a set of held; result dict outcome -> set of held
    def block(self, body, states, scopes):
        res = {RET: set(), EXC: set(), BRK: set(), CNT: set()}
        cur = set(states)
        for n in body:
            if not cur:
                break
            r = self.stmt(n, cur, scopes)
            cur = r.pop(NORMAL)
            for k, v in r.items():
                res[k] |= v
        res[NORMAL] = cur
        return res

    def stmt(self, n, cur, scopes):
        res = {NORMAL: set(), RET: set(), EXC: set(), BRK: set(), CNT: set()}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Pass)):
            res[NORMAL] = set(cur)
            return res
        if isinstance(n, ast.If):
            rel = self._only_release(n.body) if not n.orelse else None
            for h in cur:
                if self.may_raise(n.test):
                    res[EXC].add(h)
                h2 = self.expr(n.test, h, scopes)
                if rel is not None:
                    # conditional restore of the saved state
                    res[NORMAL].add(frozenset(x for x in h2 if x[0] not in rel[0] and x[3] not in rel[1]))
                    continue
                for b in (n.body, n.orelse):
                    r = self.block(b, {h2}, scopes)
                    for k in res:
                        res[k] |= r[k]
            return res
        if isinstance(n, (ast.For, ast.While)):
            pre = set()
            e = n.iter if isinstance(n, ast.For) else n.test
            for h in cur:
                if self.may_raise(e):
                    res[EXC].add(h)
                pre.add(self.expr(e, h, scopes))
            inv = set(pre)
            for _ in range(3):
                r = self.block(n.body, inv, scopes)
                new = inv | r[NORMAL] | r[CNT]
                if new == inv:
                    break
                inv = new
            r = self.block(n.body, inv, scopes)
            res[RET] |= r[RET]
            res[EXC] |= r[EXC]
            infinite = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
            out = set() if infinite else set(inv | r[NORMAL] | r[CNT])
            if n.orelse and out:
                r2 = self.block(n.orelse, out, scopes)
                for k in (RET, EXC, BRK, CNT):
                    res[k] |= r2[k]
                out = r2[NORMAL]
            res[NORMAL] = out | r[BRK]
            return res
        if isinstance(n, ast.With):
            st = set(cur)
            sc2 = set(scopes)
            for it in n.items:
                ce = it.context_expr
                if isinstance(ce, ast.Call):
                    ce._in_with = True
                    d = self.call_name(ce)
                    if isinstance(d, str):
                        sc2.add(d)
                    if d in FILE_OPEN:
                        self.sites += 1
                ns = set()
                for h in st:
                    res[EXC].add(h)
                    if isinstance(ce, ast.Call) and self.call_name(ce) in FILE_OPEN:
                        for a in ce.args:
                            h = self.expr(a, h, sc2)
                        ns.add(h)
                    elif isinstance(ce, ast.Name):
                        ns.add(frozenset(x for x in h if x[3] != ce.id))   # closed by the with statement
                    else:
                        ns.add(self.expr(ce, h, sc2))
                st = ns
            r = self.block(n.body, st, frozenset(sc2))
            for k in res:
                res[k] |= r[k]
            return res
        if isinstance(n, ast.Try):
            r = self.block(n.body, cur, scopes)
            exc = set(r[EXC])
            out = {k: set(r[k]) for k in (NORMAL, RET, BRK, CNT)}
            out[EXC] = set()
            catch_all = False
            for h in n.handlers:
                names = set()
                if h.type is not None:
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        names.add(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?"))
                if h.type is None or "BaseException" in names:
                    catch_all = True
                r2 = self.block(h.body, exc, scopes)
                for k in out:
                    out[k] |= r2[k]
            if not catch_all:
                out[EXC] |= exc
            if n.orelse:
                r3 = self.block(n.orelse, out[NORMAL], scopes)
                out[NORMAL] = r3[NORMAL]
                for k in (RET, EXC, BRK, CNT):
                    out[k] |= r3[k]
            if n.finalbody:
                fin = {NORMAL: set(), RET: set(), EXC: set(), BRK: set(), CNT: set()}
                for k in out:
                    if not out[k]:
                        continue
                    # an error inside the clean-up code itself is not followed
                    r4 = self.block(n.finalbody, out[k], scopes)
                    fin[k] |= r4[NORMAL]
                    for k2 in (RET, BRK, CNT):
                        fin[k2] |= r4[k2]
                out = fin
            for k in res:
                res[k] |= out[k]
            return res
        if isinstance(n, ast.Return):
            for h in cur:
                if n.value is not None and self.may_raise(n):
                    res[EXC].add(h)
                h2 = self.expr(n.value, h, scopes)
                if n.value is not None:
                    ids = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    h2 = frozenset(x for x in h2 if x[3] is None or x[3] not in ids)
                    if isinstance(n.value, ast.Call) and self.call_name(n.value) in FILE_OPEN:
                        h2 = h      # ownership passes to the caller
                res[RET].add(h2)
            return res
        if isinstance(n, ast.Raise):
            for h in cur:
                res[EXC].add(h)
            return res
        if isinstance(n, ast.Break):
            res[BRK] = set(cur)
            return res
        if isinstance(n, ast.Continue):
            res[CNT] = set(cur)
            return res
        # simple statement
        for h in cur:
            var = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                var = n.targets[0].id
            h2 = h
            val = getattr(n, "value", None)
            if isinstance(n, ast.Assign):
                h2 = self.expr(n.value, h, scopes, var)
                if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                    # stored in an object: judged by the context-manager rule
                    h2 = frozenset(x for x in h2 if not (x[0] == "open file" and x not in h))
                    ids = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    h2 = frozenset(x for x in h2 if x[3] is None or x[3] not in ids)
                for t in n.targets:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    d = canon(self.sc.dotted(self.m, self.fn, b, self.imps)) if isinstance(
                        b, (ast.Attribute, ast.Name)) else None
                    if d in STATE_TARGETS:
                        self.sites += 1
                        kind = STATE_TARGETS[d]
                        if STATE_SCOPES.get(kind, set()) & scopes:
                            continue
                        if (isinstance(n.value, ast.Name) and n.value.id in self.saved) or (
                                isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and
                                n.value.value.id in ("self", "sys")) or (
                                isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and
                                n.value.value.id in self.saved):
                            h2 = frozenset(x for x in h2 if x[0] != kind)
                        else:
                            h2 = h2 | {(kind, d, n.lineno, None)}
            else:
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.expr):
                        h2 = self.expr(c, h2, scopes)
            if self.may_raise(n):
                # the effect of the statement itself has not happened when it raises
                res[EXC].add(frozenset(x for x in h if x in h2))
            res[NORMAL].add(h2)
        return res


def c15(root, tier):
    prog = Program(root)
    sc = Scope(prog)
    fs, st = [], {"functions": 0, "effect_sites": 0, "context_manager_classes": 0}
    funcs = list(sc.functions())
    private = lambda q: q.rsplit(".", 1)[1].startswith("_") and not q.rsplit(".", 1)[1].startswith("__")
    sums = {}
    leaks = {}
    for rnd in range(3):
        changed = False
        for m, cls, fn, q in funcs:
            ts = TypeState(sc, m, cls, fn, q, sums)
            r = ts.block(fn.body, {frozenset()}, frozenset())
            ok_exits = r[NORMAL] | r[RET]
            acq = set()
            if ok_exits:
                acq = set.intersection(*[{x[0] for x in h if x[0] != "open file"} for h in ok_exits]) if ok_exits else set()
            rel = releases(ts, fn)
            if private(q):
                new = {"acquires": frozenset(acq), "releases": frozenset(rel - acq)}
                if sums.get(q) != new and (acq or rel):
                    sums[q] = new
                    changed = True
            leaks[q] = (r, ts.sites, acq)
        if not changed:
            break
    for m, cls, fn, q in funcs:
        st["functions"] += 1
        r, sites, acq = leaks[q]
        st["effect_sites"] += sites
        if fn.name in ("__enter__", "__exit__", "__init__", "__del__") and cls is not None:
            continue
        allowed = STATE_OK.get(q, set())
        called = private(q) and q in sums and any(True for _ in [0])
        seen = set()
        for out in (NORMAL, RET, EXC):
            for h in r[out]:
                for kind, d, line, var in h:
                    if kind in allowed or (kind, d, var) in seen:
                        continue
                    if called and kind in acq:
                        continue        # judged in its callers
                    seen.add((kind, d, var))
                    fs.append(mk("C15", "not-restored", m, fn, q, "%s (%s, line %d) is not restored/closed when the "
                                 "function %s" % (kind, d, line, "raises" if out == EXC else "returns"),
                                 "%s|%s" % (kind, d), line=line))
                    fs[-1]["line"] = line
    # generator based context managers (yield between acquire and release) are handled by the walk: yield may raise
    for m in prog.modules.values():
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef):
                ms = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}
                if "__enter__" in ms and "__exit__" in ms:
                    st["context_manager_classes"] += 1
                    fs += ctx_class(sc, m, c, ms)
    if st["functions"] < 500 or st["effect_sites"] < 8:
        raise SystemExit("C15: too few sites (%d)" % st["effect_sites"])
    st["explanation"] = ("typestate walk of every function, with an exceptional edge at every statement that can raise: "
                        "process-wide settings changed and files opened must be restored/closed on every exit; context "
                        "manager classes must undo in __exit__ every descriptor and redirection made in __enter__")
    return {"findings": fs, "coverage": st, "assumptions": [
        "clean-up code in a finally block does not itself raise",
        "third party functions restore what they change"]}


def releases(ts, fn):
    rel = set()
    for n in walk_local(fn.body):
        if isinstance(n, ast.Call):
            d = ts.call_name(n)
            w = STATE_CALLS.get(d) if isinstance(d, str) else None
            if w and w[1] == "release":
                rel.add(w[0])
    return rel


def ctx_class(sc, m, c, ms):
    out = []
    ent, ext = ms["__enter__"], ms["__exit__"]
    helpers = [ms[n.func.attr] for n in ast.walk(ext) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
               and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in ms]
    ehelpers = [ms[n.func.attr] for n in ast.walk(ent) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in ms]
    acq = {}
    enters = [ent] + ehelpers + ([ms["__init__"]] if "__init__" in ms else [])
    dup_targets, exit_targets = set(), set()
    for f in enters:
        imps = sc.local_imports(f)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and
                                                 t.value.id == "self" for t in n.targets):
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Call) and canon(sc.dotted(m, f, x.func, imps)) in FILE_OPEN:
                        for t in n.targets:
                            acq.setdefault(t.attr, n.lineno)
            if isinstance(n, ast.Call):
                d = canon(sc.dotted(m, f, n.func, imps))
                if d == "os.dup2" and len(n.args) > 1:
                    dup_targets.add(ast.unparse(n.args[1]))
                elif d == "gc.disable":
                    dup_targets.add("gc")
    closed, over_all = set(), set()
    for f in [ext] + helpers:
        imps = sc.local_imports(f)
        loopvars = {}
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                loopvars.setdefault(n.target.id, set()).update(
                    x.attr for x in ast.walk(n.iter) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
                    and x.value.id == "self")
            elif isinstance(n, ast.For):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        loopvars.setdefault(t.id, set()).update(
                            x.attr for x in ast.walk(n.iter) if isinstance(x, ast.Attribute) and
                            isinstance(x.value, ast.Name) and x.value.id == "self")
        for n in ast.walk(f):
            if isinstance(n, ast.Call):
                d = canon(sc.dotted(m, f, n.func, imps))
                if d == "os.dup2" and len(n.args) > 1:
                    a = ast.unparse(n.args[1])
                    exit_targets.add(a)
                    if not isinstance(n.args[1], ast.Constant):
                        exit_targets.add("*")
                elif d == "gc.enable":
                    exit_targets.add("gc")
                elif d == "os.close" or (isinstance(n.func, ast.Attribute) and n.func.attr == "close"):
                    args = n.args if d == "os.close" else [n.func.value]
                    for a in args:
                        for x in ast.walk(a):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                                closed.add(x.attr)
                            elif isinstance(x, ast.Name):
                                closed |= loopvars.get(x.id, set())
            if isinstance(n, (ast.Call,)) and isinstance(n.func, ast.Name) and n.func.id == "map" and len(n.args) == 2 \
                    and canon(sc.dotted(m, f, n.args[0], imps)) == "os.close":
                closed |= {x.attr for x in ast.walk(n.args[1]) if isinstance(x, ast.Attribute)}
    q = m.name + "." + c.name
    for a, line in sorted(acq.items()):
        if a not in closed:
            out.append(mk("C15", "context-leak", m, ext, q + ".__exit__",
                          "descriptors stored in self.%s by __enter__ are not closed by __exit__" % a, a))
    if "*" not in exit_targets:
        for t in sorted(dup_targets - exit_targets):
            out.append(mk("C15", "context-leak", m, ext, q + ".__exit__",
                          "descriptor %s redirected by __enter__ is not restored by __exit__" % t, "dup2|" + t))
    return out
