"""C14: deletion and overwriting of files.

Every function from which a deletion call is reachable is followed path by path over an abstract state: the answers
given at prompts (as the set of answers still possible on the path), the path lists and the element handled in the
current iteration, and the tests that hold. Nothing is executed."""
import ast
from .prog import Program, FuncInfo, ClassInfo, walk_local
from .effects import Scope, canon, mk

DELETE = {"os.remove": "file", "os.unlink": "file", "os.rmdir": "dir", "os.removedirs": "tree", "shutil.rmtree": "tree",
          "os.rename": "move", "os.renames": "move", "os.replace": "move", "shutil.move": "move", "os.truncate": "move",
          "shutil.copy": "move", "shutil.copyfile": "move", "shutil.copytree": "move", "os.link": "move",
          "os.symlink": "move", "shutil.copy2": "move"}
DELETE_METHODS = {"unlink": "file", "rmdir": "dir", "rmtree": "tree"}
HOME = ("IMTreatment.utils.files.",)
AFF = {"o", "y", "oui", "yes", "ok", "okay", "yep", "yeah", "yes please", "true", "1", "si"}
ANSWERS = ["o", "O", "y", "Y", "oui", "Oui", "OUI", "yes", "Yes", "YES", " y ", "yes ",
           "n", "N", "no", "No", "NO", "non", "Non", "NON", "", " ", "x", "maybe", "0", "nope", "never", "q", "quit",
           "ynot", "on", "other", "Otherwise", "not yet", "abc", "NOO", "nonono", "yno", "cancel", "oh no", "wait", "YN"]
UNK = ("unk",)
NORMAL, RET, EXC, BRK, CNT = "normal", "return", "raise", "break", "continue"
KEEP_LIST = {"list", "tuple", "sorted", "set", "reversed", "numpy.array", "numpy.asarray", "numpy.unique", "numpy.sort"}
KEEP_STR = {"str", "os.path.normpath", "os.path.abspath", "os.path.realpath", "os.fspath", "pathlib.Path", "os.path.normcase",
            "os.path.expanduser"}
SHRINK = {"os.path.dirname", "os.path.commonpath", "os.path.commonprefix", "os.getcwd", "os.path.split", "os.path.basename",
          "os.path.splitext", "glob.glob", "os.listdir"}


def is_aff(t):
    return t.strip().lower() in AFF


class State(object):
    __slots__ = ("env", "ans", "scopes", "facts", "content")

    def __init__(self, env=None, ans=None, scopes=(None,), facts=frozenset(), content=None):
        self.env, self.ans, self.scopes, self.facts = env or {}, ans or {}, scopes, facts
        self.content = content or {}

    def copy(self):
        return State(dict(self.env), dict(self.ans), self.scopes, self.facts, dict(self.content))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.ans.items()), self.scopes, self.facts,
                frozenset(self.content.items()))


def uniq(states, cap=4000):
    d = {}
    for s in states:
        d.setdefault(s.key(), s)
    return list(d.values())[:cap]


class Walker(object):
    """path walk of one entry function, package helpers inlined"""

    def __init__(self, sc, entry, found, stats):
        self.sc, self.entry, self.found, self.stats = sc, entry, found, stats
        self.depth = 0
        self.nscope = 0

    # ------------------------------------------------------------------ running functions
    def run(self, m, cls, fn, q):
        st = State()
        for a in fn.args.args + fn.args.kwonlyargs:
            st.env[a.arg] = ("par", a.arg)
        if cls is not None and fn.args.args:
            st.env[fn.args.args[0].arg] = ("self",)
        self.stack = []
        self.frames = [(m, cls, fn, q, self.sc.local_imports(fn))]
        self.block(fn.body, [st])

    @property
    def fr(self):
        return self.frames[-1]

    def name_of(self, node):
        return canon(self.sc.dotted(self.fr[0], self.fr[2], node, self.fr[4]))

    def inline(self, target, cls, callnode, args, kwargs, st, selfval=None):
        m, fn, q = target
        if self.depth > 6 or any(f[2] is fn for f in self.frames):
            return [(UNK, st)]
        s = st.copy()
        saved = s.env
        s.env = {}
        names = [a.arg for a in fn.args.args]
        if selfval is not None:
            s.env[names[0]] = selfval
            names = names[1:]
        defaults = fn.args.defaults
        for nm, d in zip([a.arg for a in fn.args.args][len(fn.args.args) - len(defaults):], defaults):
            s.env[nm] = ("c", d.value) if isinstance(d, ast.Constant) else UNK
        for nm, d in zip([a.arg for a in fn.args.kwonlyargs], fn.args.kw_defaults):
            s.env[nm] = ("c", d.value) if isinstance(d, ast.Constant) else UNK
        for nm, v in zip(names, args):
            s.env[nm] = v
        for k, v in kwargs.items():
            s.env[k] = v
        for nm in names:
            s.env.setdefault(nm, UNK)
        self.depth += 1
        self.frames.append((m, cls, fn, q, self.sc.local_imports(fn)))
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(fn.body))
        r = self.block(fn.body, [s])
        self.frames.pop()
        self.depth -= 1
        out = []
        for s2 in r[NORMAL]:
            s2 = s2.copy()
            s2.env = dict(saved)
            out.append((UNK if gen else ("c", None), s2))
        for s2 in r[RET]:
            s2 = s2.copy()
            v = s2.env.pop("<ret>", ("c", None))
            s2.env = dict(saved)
            out.append((UNK if gen else v, s2))
        return out

    # ------------------------------------------------------------------ expressions: list of (value, state)
    def ev(self, e, st):
        if e is None:
            return [(("c", None), st)]
        if isinstance(e, ast.Constant):
            return [(("c", e.value), st)]
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return [(st.env[e.id], st)]
            d = self.name_of(e)
            if isinstance(d, str) and d in DELETE:
                return [(("sink", d), st)]
            c = self.fr[0].env.get(e.id) if hasattr(self.fr[0], "env") else None
            v = self.module_const(e.id)
            return [(v if v is not None else UNK, st)]
        if isinstance(e, ast.Attribute):
            d = self.name_of(e)
            if isinstance(d, str) and d in DELETE:
                return [(("sink", d), st)]
            out = []
            for v, s in self.ev(e.value, st):
                if v == ("self",):
                    out.append((s.env.get("self." + e.attr, ("attr", e.attr)), s))
                else:
                    out.append((UNK, s))
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = [((), st)]
            for x in e.elts:
                out = [(acc + (v,), s2) for acc, s in out for v, s2 in self.ev(x, s)]
            if isinstance(e, ast.List) and not e.elts:
                res = []
                for _, s in out:
                    s = s.copy()
                    loc = ("loc", self.fr[3], e.lineno, e.col_offset)
                    s.content[loc] = frozenset()
                    res.append((loc, s))
                return res
            return [(("seq",) + acc, s) for acc, s in out]
        if isinstance(e, (ast.BoolOp, ast.UnaryOp)) and not (isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not)):
            return [(("c", b), s) for b, s in self.test(e, st)]
        if isinstance(e, ast.Compare):
            return [(("c", b), s) for b, s in self.test(e, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for b, s in self.test(e.test, st):
                out += self.ev(e.body if b else e.orelse, s)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Subscript):
            out = []
            for b, s in self.ev(e.value, st):
                for i, s2 in self.ev(e.slice, s):
                    out.append((self.sub(b, i), s2))
            return out
        if isinstance(e, ast.BinOp):
            out = []
            for a, s in self.ev(e.left, st):
                for b, s2 in self.ev(e.right, s):
                    out.append((self.cat(a, b), s2))
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1:
            g = e.generators[0]
            out = []
            for it, s in self.ev(g.iter, st):
                s0 = s.copy()
                keep = s0.env
                s1 = State(dict(s0.env), dict(s0.ans), s0.scopes + (None,), s0.facts, dict(s0.content))
                self.bind(g.target, self.element(it, id(e)), s1)
                cont = set()
                states = [s1]
                for c in g.ifs:
                    states = [x for s2 in states for b, x in self.test(c, s2) if b]
                last = s
                for s2 in states:
                    for v, s3 in self.ev(e.elt, s2):
                        cont.add((v, s3.facts))
                loc = ("loc", self.fr[3], e.lineno, e.col_offset)
                s0.content[loc] = frozenset(cont)
                out.append((loc, s0))
            return out
        if isinstance(e, ast.JoinedStr):
            return [(UNK, st)]
        # anything else: evaluate children for their effects
        states = [st]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr) and not isinstance(e, ast.Lambda):
                states = [s2 for s in states for _, s2 in self.ev(c, s)]
        return [(UNK, s) for s in states]

    def module_const(self, name):
        for n in self.fr[0].tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return self.const_val(n.value)
        # imported constant
        for n in self.fr[0].tree.body:
            if isinstance(n, ast.ImportFrom):
                for al in n.names:
                    if (al.asname or al.name) == name:
                        for mod in self.sc.prog.modules.values():
                            if n.module and mod.name.endswith(n.module.split(".")[-1]):
                                for k in mod.tree.body:
                                    if isinstance(k, ast.Assign) and any(
                                            isinstance(t, ast.Name) and t.id == al.name for t in k.targets):
                                        return self.const_val(k.value)
        return None

    def const_val(self, v):
        if isinstance(v, ast.Constant):
            return ("c", v.value)
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
            xs = [self.const_val(x) for x in v.elts]
            return ("seq",) + tuple(xs) if all(xs) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "set", "tuple", "list") \
                and len(v.args) == 1:
            return self.const_val(v.args[0])
        return None

    @staticmethod
    def cat(a, b):
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], str) and isinstance(b[1], str):
            return ("c", a[1] + b[1])
        if a[0] == "seq" and b[0] == "seq":
            return a + b[1:]
        if a[0] in ("elem", "derived", "join", "walkroot") and b[0] == "c":
            return ("derived", "+", a)
        return UNK

    @staticmethod
    def sub(b, i):
        if b[0] == "seq" and i[0] == "c" and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
            return b[1:][i[1]]
        if b[0] in ("attr", "sel", "loc", "wfiles", "wdirs") and i[0] == "idx":
            return ("elem", b, i[1])
        if b[0] in ("attr", "sel") and i[0] in ("attr", "sel"):
            return ("sel", b, i)
        if b[0] == "ans":
            return ("ans", b[1], b[2] + (("sub", i[1] if i[0] == "c" else None),))
        if b[0] == "split":
            return ("derived", "split", b[1]) if i == ("c", 0) else UNK
        return UNK

    def element(self, it, lid):
        if it[0] in ("attr", "sel", "loc", "wfiles", "wdirs"):
            return ("elem", it, lid)
        if it[0] == "enum":
            return ("seq", ("idx", lid), self.element(it[1], lid))
        if it[0] == "zip":
            return ("seq",) + tuple(self.element(x, lid) for x in it[1:])
        if it[0] == "range":
            return ("idx", lid)
        if it[0] == "walk":
            return ("seq", ("walkroot", lid), ("wdirs", lid), ("wfiles", lid))
        return UNK

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                self.bind(x, v[1:][k] if v[0] == "seq" and len(v) - 1 > k else UNK, s)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and s.env.get(t.value.id) == ("self",):
            s.env["self." + t.attr] = v

    # ------------------------------------------------------------------ calls
    def call(self, e, st):
        d = self.name_of(e.func)
        fvals = [(None, st)]
        if not isinstance(d, (str, FuncInfo, ClassInfo)) or (isinstance(d, str) and isinstance(e.func, ast.Name)
                                                             and e.func.id in st.env):
            if isinstance(e.func, ast.Name) and e.func.id in st.env:
                fvals = [(st.env[e.func.id], st)]
        out = []
        for fv, s0 in fvals:
            recv = [(None, s0)]
            if isinstance(e.func, ast.Attribute) and not isinstance(d, (str, FuncInfo)):
                recv = self.ev(e.func.value, s0)
            for rv, s1 in recv:
                acc = [((), {}, s1)]
                for a in e.args:
                    a = a.value if isinstance(a, ast.Starred) else a
                    acc = [(p + (v,), k, s3) for p, k, s2 in acc for v, s3 in self.ev(a, s2)]
                for kw in e.keywords:
                    acc = [(p, dict(k, **({kw.arg: v} if kw.arg else {})), s3) for p, k, s2 in acc
                           for v, s3 in self.ev(kw.value, s2)]
                for p, k, s2 in acc:
                    out += self.apply(e, d, fv, rv, p, k, s2)
        return out

    def apply(self, e, d, fv, rv, args, kwargs, s):
        if isinstance(d, FuncInfo):
            selfv = None
            return self.inline((d.module, d.node, d.qual), None, e, args, kwargs, s, selfv)
        if fv is not None and fv[0] == "sink":
            d = fv[1]
        if isinstance(d, str):
            if d in DELETE:
                self.sink(e, d, args, kwargs, s)
                return [(("c", None), s)]
            if d in ("input", "raw_input"):
                s = s.copy()
                aid = (self.fr[3], e.lineno, e.col_offset)
                s.ans[aid] = frozenset(ANSWERS)
                s.scopes = s.scopes[:-1] + (aid,)
                self.stats["prompts"].add(aid)
                return [(("ans", aid, ()), s)]
            if d in KEEP_LIST and args:
                return [(args[0], s)]
            if d in KEEP_STR and args:
                return [(args[0], s)]
            if d == "enumerate" and args:
                return [(("enum", args[0]), s)]
            if d == "zip":
                return [(("zip",) + args, s)]
            if d in ("range", "numpy.arange"):
                return [(("range",), s)]
            if d == "os.walk":
                return [(("walk", args[0] if args else UNK), s)]
            if d == "os.path.join" and args:
                if len(args) == 2 and args[0][0] == "walkroot" and args[1][0] == "elem" and \
                        args[1][1] in (("wfiles", args[0][1]), ("wdirs", args[0][1])):
                    return [(("join", args[-1]), s)]
                return [(("derived", "join", args[0]) if args[0][0] in ("elem", "join", "attr") else UNK, s)]
            if d in SHRINK and args:
                if d in ("os.path.split", "os.path.splitext"):
                    return [(("split", args[0]), s)]
                return [(("derived", d, args[0]), s)]
            if d in ("re.match", "re.search", "re.fullmatch") and len(args) > 1:
                return [(("match", d, args[0], args[1]), s)]
            if d == "re.compile" and args:
                return [(("rx", args[0]), s)]
            if d == "map" and len(args) > 1 and args[0][0] == "sink":
                self.sink(e, args[0][1], (self.element(args[1], id(e)),), {}, s, scope=True)
                return [(UNK, s)]
            if d in ("filter",) and len(args) > 1:
                return [(args[1], s)]
            if d == "bool" and args:
                return [(args[0], s)]
        if isinstance(e.func, ast.Attribute) and rv is not None:
            a = e.func.attr
            if rv == ("self",):
                cls = self.fr[1]
                for q, m2, f2, c2 in self.methods(a):
                    return self.inline((m2, f2, q), c2, e, args, kwargs, s, rv)
                return [(UNK, s)]
            if rv[0] == "ans":
                if a in ("lower", "upper", "strip", "casefold", "capitalize", "title", "rstrip", "lstrip") and not args:
                    return [(("ans", rv[1], rv[2] + ((a, None),)), s)]
                if a in ("startswith", "endswith") and args and args[0][0] in ("c", "seq"):
                    v = args[0][1] if args[0][0] == "c" else tuple(x[1] for x in args[0][1:])
                    return [(("ans", rv[1], rv[2] + ((a, v),)), s)]
                return [(UNK, s)]
            if rv[0] == "rx" and a in ("match", "search", "fullmatch") and args:
                return [(("match", "re." + a, rv[1], args[0]), s)]
            if rv[0] == "loc" and a in ("append", "add", "insert") and args:
                s = s.copy()
                s.content[rv] = s.content.get(rv, frozenset()) | {(args[-1], s.facts)}
                return [(("c", None), s)]
            if rv[0] == "loc" and a in ("extend", "update") and args:
                s = s.copy()
                src = args[0]
                add = s.content.get(src, frozenset({(UNK, s.facts)})) if src[0] == "loc" else \
                    frozenset({(self.element(src, id(e)), s.facts)})
                add = frozenset((v, f | s.facts) for v, f in add)
                s.content[rv] = s.content.get(rv, frozenset()) | add
                return [(("c", None), s)]
            if a in DELETE_METHODS and rv[0] in ("elem", "join", "derived", "unk", "par"):
                d2 = {"file": "os.remove", "dir": "os.rmdir", "tree": "shutil.rmtree"}[DELETE_METHODS[a]]
                if rv[0] != "unk":
                    self.sink(e, d2, (rv,), {}, s)
                return [(("c", None), s)]
            if a in ("copy", "tolist") and not args:
                return [(rv, s)]
            if a in ("parent",):
                return [(("derived", "parent", rv), s)]
        return [(UNK, s)]

    def methods(self, name):
        for m, cls, fn, q in self.stats["funcs"]:
            if fn.name == name and cls is not None and self.fr[1] is cls:
                yield q, m, fn, cls

    # ------------------------------------------------------------------ tests: list of (bool, state)
    def xf(self, tok, ops):
        v = tok
        try:
            for op, a in ops:
                if op == "sub":
                    v = v[a] if a is not None else None
                elif op in ("startswith", "endswith"):
                    v = getattr(v, op)(a)
                else:
                    v = getattr(v, op)()
        except Exception:
            return None
        return v

    def split_ans(self, v, pred, s):
        aid, ops = v[1], v[2]
        cur = s.ans.get(aid, frozenset(ANSWERS))
        yes = frozenset(t for t in cur if pred(self.xf(t, ops)))
        out = []
        for b, sub in ((True, yes), (False, cur - yes)):
            if sub:
                s2 = s.copy()
                s2.ans[aid] = sub
                out.append((b, s2))
        return out

    def truth(self, v, s):
        if v[0] == "c":
            return [(bool(v[1]), s)]
        if v[0] == "ans":
            return self.split_ans(v, bool, s)
        if v[0] == "seq":
            return [(len(v) > 1, s)]
        key = v if v[0] in ("par", "elem", "match", "attr", "isdir") else None
        if key is not None:
            if ("T", key) in s.facts:
                return [(True, s)]
            if ("F", key) in s.facts:
                return [(False, s)]
            a, b = s.copy(), s.copy()
            a.facts = a.facts | {("T", key)}
            b.facts = b.facts | {("F", key)}
            return [(True, a), (False, b)]
        return [(True, s), (False, s)]

    def test(self, e, st):
        if isinstance(e, ast.BoolOp):
            cur = [(isinstance(e.op, ast.And), st)]
            for x in e.values:
                nxt = []
                for b, s in cur:
                    if b != isinstance(e.op, ast.And):
                        nxt.append((b, s))
                    else:
                        nxt += self.test(x, s)
                cur = nxt
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.test(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            out = []
            for a, s in self.ev(e.left, st):
                for b, s2 in self.ev(e.comparators[0], s):
                    neg = isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot))
                    if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                        r = self.eq(a, b, s2)
                    elif isinstance(op, (ast.In, ast.NotIn)):
                        r = self.contains(a, b, s2)
                    else:
                        r = [(True, s2), (False, s2)]
                        neg = False
                    out += [(x != neg, s3) for x, s3 in r]
            return out
        if isinstance(e, ast.Call):
            d = self.name_of(e.func)
            if d in ("os.path.isdir", "os.path.isfile") and e.args:
                out = []
                for v, s in self.ev(e.args[0], st):
                    r = self.truth(("isdir", v), s)
                    out += [(b == (d == "os.path.isdir"), s2) for b, s2 in r]
                return out
        out = []
        for v, s in self.ev(e, st):
            out += self.truth(v, s)
        return out

    def eq(self, a, b, s):
        if b[0] == "ans" and a[0] != "ans":
            a, b = b, a
        if a[0] == "ans":
            if b[0] == "c":
                return self.split_ans(a, lambda t: t == b[1], s)
            return [(True, s), (False, s)]
        if a[0] == "c" and b[0] == "c":
            return [(a[1] == b[1] and type(a[1]) == type(b[1]), s)]
        for x, y in ((a, b), (b, a)):
            if x[0] == "match" and y == ("c", None):
                return [(not t, s2) for t, s2 in self.truth(x, s)]
            if x[0] in ("par", "elem", "attr") and y[0] == "c" and isinstance(y[1], bool):
                return [(t == y[1], s2) for t, s2 in self.truth(x, s)]
        return [(True, s), (False, s)]

    def contains(self, a, b, s):
        if a[0] == "ans":
            if b[0] == "seq" and all(x[0] == "c" for x in b[1:]):
                vals = [x[1] for x in b[1:]]
                return self.split_ans(a, lambda t: t in vals, s)
            if b[0] == "c" and isinstance(b[1], str):
                return self.split_ans(a, lambda t: isinstance(t, str) and t in b[1], s)
        if a[0] == "c" and b[0] == "seq" and all(x[0] == "c" for x in b[1:]):
            return [(a[1] in [x[1] for x in b[1:]], s)]
        return [(True, s), (False, s)]

    # ------------------------------------------------------------------ the sinks
    def sink(self, e, d, args, kwargs, s, scope=False):
        kind = DELETE[d]
        m, cls, fn, q, _ = self.fr
        self.stats["sinks_seen"].add((q, e.lineno))
        self.stats["judged"] += 1

        def bad(rule, msg):
            self.found.setdefault((rule, q, e.lineno), mk(
                "C14", rule, m, e, q, "%s at line %d %s (reached from %s)" % (
                    d, e.lineno, msg, self.entry.split(".", 1)[-1]), d))
        if kind == "move":
            return bad("moves-files", "moves, copies over or truncates files, which no utility announces")
        answers = [s.ans[a] for a in s.scopes if a is not None]
        if not answers:
            return bad("unconfirmed", "deletes without having asked for confirmation")
        for a in answers:
            neg = sorted(t for t in a if not is_aff(t))
            if neg:
                return bad("unconfirmed", "is reached after the answer %r" % neg[0])
        arg = args[0] if args else kwargs.get("path", UNK)
        if kind == "tree":
            own = s.scopes[-1] is not None and len(s.scopes) > 1
            if not (("T", ("par", "recursive")) in s.facts or own):
                bad("tree-unconfirmed", "deletes a whole tree although recursive removal was neither requested nor "
                    "confirmed for this folder")
        v = arg
        if v[0] == "c":
            return bad("other-path", "deletes a fixed path")
        if v[0] == "derived":
            return bad("other-path", "deletes a path computed from a listed entry (%s), not the entry" % v[1])
        if v[0] in ("par", "walkroot"):
            return bad("other-path", "deletes %s, not a listed entry" % (v[1] if v[0] == "par" else "the folder"))
        if v[0] == "elem":
            base = v[1]
            if base[0] == "loc":
                for c, f in s.content.get(base, ()):
                    self.check_content(c, f, bad)
            else:
                root = base
                while root[0] == "sel":
                    root = root[1]
                if root[0] == "attr" and root[1] != "paths":
                    bad("other-path", "deletes an entry of self.%s, not of the listed paths" % root[1])
                # kind flag of the same entry
                for sign, key in s.facts:
                    if key[0] == "elem" and key[2] == v[2]:
                        b2 = key[1]
                        r2 = b2
                        while r2[0] == "sel":
                            r2 = r2[1]
                        if r2 == ("attr", "isdir"):
                            if self.sels(b2) != self.sels(base):
                                bad("misaligned", "takes the folder flag of another entry (flags and paths are not "
                                    "selected alike)")
                            if kind == "file" and sign == "T" or kind in ("dir", "tree") and sign == "F":
                                bad("wrong-kind", "removes a folder as a file or the reverse")
        if v[0] == "join":
            self.check_content(v, s.facts, bad)
        for p, want in (("remove_files", "T"),):
            if kind == "file" and any(a.arg == p for a in fn.args.args) and (want, ("par", p)) not in s.facts:
                bad("option-ignored", "deletes although %s may be False" % p)

    @staticmethod
    def sels(v):
        out = []
        while v[0] == "sel":
            out.append(v[2])
            v = v[1]
        return out

    def check_content(self, c, facts, bad):
        if c[0] == "unk":
            return
        if c[0] != "join" or c[1][1][0] != "wfiles":
            return bad("other-path", "deletes entries that are not files found in the searched folders (%s)" % (c[0],))
        need = {("par", "dir_regex"): ("walkroot", c[1][1][1]), ("par", "file_regex"): None}
        got = {}
        for sign, k in facts:
            if sign == "T" and k[0] == "match":
                got.setdefault(k[2], []).append(k[3])
        params = {a.arg for a in self.frames[0][2].args.args}
        for p, subj in need.items():
            if p[1] not in params:
                continue
            subs = got.get(p, [])
            ok = any((subj is not None and x == subj) or (subj is None and (x == c[1] or x == c)) for x in subs)
            if not ok:
                bad("unfiltered", "deletes files that were not matched against %s" % p[1])

    # ------------------------------------------------------------------ statements
    def block(self, body, states):
        res = {RET: [], EXC: [], BRK: [], CNT: []}
        cur = states
        for n in body:
            if not cur:
                break
            r = self.stmt(n, cur)
            cur = uniq(r.pop(NORMAL))
            for k, v in r.items():
                res[k] = uniq(res[k] + v)
        res[NORMAL] = cur
        self.stats["steps"] += len(body)
        return res

    def stmt(self, n, cur):
        res = {NORMAL: [], RET: [], EXC: [], BRK: [], CNT: []}

        def add(r):
            for k, v in r.items():
                res[k] += v
        if isinstance(n, ast.If):
            t, f = [], []
            for s in cur:
                for b, s2 in self.test(n.test, s):
                    (t if b else f).append(s2)
            if t:
                add(self.block(n.body, uniq(t)))
            if f:
                add(self.block(n.orelse, uniq(f)))
            return res
        if isinstance(n, ast.While):
            cur = list(cur)
            for rnd in range(3):
                t, f = [], []
                for s in cur:
                    for b, s2 in self.test(n.test, s):
                        (t if b else f).append(s2)
                res[NORMAL] += f
                if not t:
                    break
                r = self.block(n.body, uniq(t))
                res[NORMAL] += r[BRK]
                res[RET] += r[RET]
                res[EXC] += r[EXC]
                cur = uniq(r[NORMAL] + r[CNT])
            return res
        if isinstance(n, (ast.For, ast.AsyncFor)):
            lid = n.lineno
            for s in cur:
                for it, s1 in self.ev(n.iter, s):
                    states = [s1]
                    res[NORMAL].append(s1)
                    for rnd in range(2):
                        start = []
                        for s2 in states:
                            s3 = s2.copy()
                            s3.scopes = s3.scopes + (None,)
                            s3.facts = frozenset(f for f in s3.facts if not self.mentions(f, lid))
                            self.bind(n.target, self.element(it, lid), s3)
                            start.append(s3)
                        r = self.block(n.body, uniq(start))
                        for s2 in r[BRK]:
                            s2 = s2.copy()
                            s2.scopes = s2.scopes[:-2] + (s2.scopes[-1] or s2.scopes[-2],)
                            res[NORMAL].append(s2)
                        for k in (RET, EXC):
                            for s2 in r[k]:
                                s2 = s2.copy()
                                s2.scopes = s2.scopes[:-2] + (s2.scopes[-1] or s2.scopes[-2],)
                                res[k].append(s2)
                        nxt = []
                        for s2 in r[NORMAL] + r[CNT]:
                            s2 = s2.copy()
                            s2.scopes = s2.scopes[:-1]
                            nxt.append(s2)
                        states = uniq(nxt)
                        res[NORMAL] += states
            res[NORMAL] = uniq(res[NORMAL])
            return res
        if isinstance(n, ast.With):
            st = list(cur)
            for it in n.items:
                st = [s2 for s in st for _, s2 in self.ev(it.context_expr, s)]
            add(self.block(n.body, st))
            return res
        if isinstance(n, ast.Try):
            # an exception may leave the body after any statement
            mid = list(cur)
            states = list(cur)
            for b in n.body:
                r = self.stmt(b, states)
                states = uniq(r.pop(NORMAL))
                for k, v in r.items():
                    if k == EXC:
                        mid += v
                    else:
                        res[k] += v
                mid += states
                if not states:
                    break
            mid = uniq(mid)
            if n.orelse and states:
                r = self.block(n.orelse, states)
                states = r.pop(NORMAL)
                for k, v in r.items():
                    res[k] += v
            res[NORMAL] += states
            for h in n.handlers:
                add(self.block(h.body, mid))
            if not n.handlers:
                res[EXC] += mid
            if n.finalbody:
                out = {NORMAL: [], RET: [], EXC: [], BRK: [], CNT: []}
                for k, v in res.items():
                    if v:
                        r = self.block(n.finalbody, uniq(v))
                        out[k] += r[NORMAL]
                        for k2 in (RET, BRK, CNT):
                            out[k2] += r[k2]
                res = out
            return res
        if isinstance(n, ast.Return):
            for s in cur:
                for v, s2 in self.ev(n.value, s):
                    s2 = s2.copy()
                    s2.env["<ret>"] = v
                    res[RET].append(s2)
            return res
        if isinstance(n, ast.Raise):
            res[EXC] = list(cur)
            return res
        if isinstance(n, ast.Break):
            res[BRK] = list(cur)
            return res
        if isinstance(n, ast.Continue):
            res[CNT] = list(cur)
            return res
        if isinstance(n, ast.Assign):
            for s in cur:
                for v, s2 in self.ev(n.value, s):
                    s2 = s2.copy()
                    for t in n.targets:
                        self.bind(t, v, s2)
                    res[NORMAL].append(s2)
            return res
        if isinstance(n, ast.AugAssign):
            for s in cur:
                for v, s2 in self.ev(n.value, s):
                    s2 = s2.copy()
                    if isinstance(n.target, ast.Name):
                        old = s2.env.get(n.target.id)
                        if old is not None and old[0] == "loc":
                            src = s2.content.get(v, frozenset({(UNK, s2.facts)})) if v[0] == "loc" else frozenset(
                                (x, s2.facts) for x in (v[1:] if v[0] == "seq" else (UNK,)))
                            s2.content[old] = s2.content.get(old, frozenset()) | src
                        else:
                            s2.env[n.target.id] = UNK
                    res[NORMAL].append(s2)
            return res
        if isinstance(n, ast.Assert):
            for s in cur:
                for b, s2 in self.test(n.test, s):
                    res[NORMAL if b else EXC].append(s2)
            return res
        if isinstance(n, ast.Expr):
            for s in cur:
                res[NORMAL] += [s2 for _, s2 in self.ev(n.value, s)]
            return res
        res[NORMAL] = list(cur)
        return res

    @staticmethod
    def mentions(f, lid):
        def walk(v):
            if isinstance(v, tuple):
                if v and v[0] in ("elem", "idx", "walkroot", "wfiles", "wdirs") and v[-1] == lid:
                    return True
                return any(walk(x) for x in v)
            return False
        return walk(f)


# ------------------------------------------------------------------------------------------- writing functions
WRITE_CALLS = {"numpy.savetxt": 0, "numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0, "imageio.imwrite": 0,
               "imageio.imsave": 0, "imageio.mimwrite": 0, "imageio.mimsave": 0, "cv2.imwrite": 0, "cv2.VideoWriter": 0,
               "scipy.io.savemat": 0, "matplotlib.pyplot.savefig": 0, "os.mkdir": 0, "os.makedirs": 0,
               "matplotlib.image.imsave": 0, "matplotlib.pyplot.imsave": 0, "imageio.get_writer": 0,
               "imageio.v2.imwrite": 0, "imageio.v3.imwrite": 0, "h5py.File": 0}
OPENERS = {"open": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1, "codecs.open": 1, "io.open": 1, "h5py.File": 1}
PATH_BAD = {"os.path.dirname", "os.getcwd", "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.gettempdir",
            "os.path.basename", "os.path.commonpath"}


# critical points are stored as one file per kind and time in a folder named after the given path
DOCUMENTED = {("export_to_ascii", "os.mkdir", "os.path.splitext")}


class PathFlow(object):
    """where does the path handed to a writing call come from? returns a set of origins:
    'par:NAME', 'self.X', 'const', 'bad:FUNC', 'unk'"""

    def __init__(self, sc, m, cls, fn, q):
        self.sc, self.m, self.cls, self.fn, self.q = sc, m, cls, fn, q
        self.imps = sc.local_imports(fn)
        self.params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        self.defs = {}
        for n in walk_local(fn.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                self.defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(n.value)

    def origins(self, e, seen=()):
        if e is None:
            return {"unk"}
        if isinstance(e, ast.Constant):
            return {"const"}
        if isinstance(e, ast.Name):
            if e.id in seen:
                return set()
            r = set()
            if e.id in self.params:
                r.add("par:" + e.id)
            for v in self.defs.get(e.id, []):
                r |= self.origins(v, seen + (e.id,))
            return r or {"unk"}
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
                return {"self." + e.attr}
            d = canon(self.sc.dotted(self.m, self.fn, e, self.imps))
            if d == "os.devnull":
                return {"devnull"}
            if isinstance(e.value, ast.Name) or isinstance(e.value, ast.Attribute):
                o = self.origins(e.value, seen)
                if e.attr == "parent":
                    return {"bad:parent"} | o
                return o
            return {"unk"}
        if isinstance(e, ast.BinOp):
            return self.origins(e.left, seen) | self.origins(e.right, seen)
        if isinstance(e, ast.JoinedStr):
            r = set()
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    r |= self.origins(v.value, seen)
                elif isinstance(v.value, str) and ".." in v.value:
                    r.add("bad:..")
            return r or {"const"}
        if isinstance(e, ast.IfExp):
            return self.origins(e.body, seen) | self.origins(e.orelse, seen)
        if isinstance(e, ast.Subscript):
            r = self.origins(e.value, seen)
            if isinstance(e.slice, ast.Slice) and isinstance(e.value, ast.Name) and any(
                    x.startswith("par:") for x in r):
                r = r | {"bad:truncated"}
            return r
        if isinstance(e, (ast.Tuple, ast.List)):
            r = set()
            for x in e.elts:
                r |= self.origins(x, seen)
            return r or {"const"}
        if isinstance(e, ast.Call):
            d = canon(self.sc.dotted(self.m, self.fn, e.func, self.imps))
            r = set()
            if isinstance(d, str) and d in PATH_BAD:
                r.add("bad:" + d)
            if isinstance(d, str) and d in ("os.path.split", "os.path.splitext"):
                r.add("bad:" + d)
            if isinstance(e.func, ast.Attribute) and not isinstance(d, str) and e.func.attr in (
                    "replace", "rstrip", "lstrip", "lower", "upper", "split", "partition", "rsplit", "with_suffix",
                    "with_name", "removesuffix") and any(
                    x.startswith("par:") for x in self.origins(e.func.value, seen)):
                r.add("bad:." + e.func.attr)
            if isinstance(e.func, ast.Attribute) and not isinstance(d, str):
                r |= self.origins(e.func.value, seen)
            for a in list(e.args) + [k.value for k in e.keywords]:
                r |= self.origins(a, seen)
            return r or {"unk"}
        return {"unk"}


def write_sites(sc, m, cls, fn, q):
    imps = sc.local_imports(fn)
    for n in walk_local(fn.body):
        if not isinstance(n, ast.Call):
            continue
        d = canon(sc.dotted(m, fn, n.func, imps))
        if not isinstance(d, str):
            continue
        d = {"spio.savemat": "scipy.io.savemat", "plt.savefig": "matplotlib.pyplot.savefig"}.get(d, d)
        if d in OPENERS:
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if mode is None or (isinstance(mode, ast.Constant) and not set(str(mode.value)) & set("wax+")):
                continue
            yield d, n, n.args[0] if n.args else None
        elif d in WRITE_CALLS:
            a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in (
                "fname", "filename", "path", "file", "uri", "name", "file_name")), None)
            yield d, n, a


def c14(root, tier):
    prog = Program(root)
    sc = Scope(prog)
    funcs = list(sc.functions())
    found = {}
    stats = {"funcs": funcs, "prompts": set(), "sinks_seen": set(), "judged": 0, "steps": 0}
    # sinks and callers
    sink_funcs = {}
    nsinks = 0
    for m, cls, fn, q in funcs:
        imps = sc.local_imports(fn)
        for n in walk_local(fn.body):
            d = None
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
                d = canon(sc.dotted(m, fn, n, imps))
                if isinstance(n, ast.Name) and d is None:
                    continue
            if isinstance(d, str) and d in DELETE:
                sink_funcs.setdefault(q, []).append((d, n))
                nsinks += 1
    byq = {q: (m, cls, fn, q) for m, cls, fn, q in funcs}
    callers = {}
    for m, cls, fn, q in funcs:
        imps = sc.local_imports(fn)
        for n in walk_local(fn.body):
            if isinstance(n, ast.Call):
                d = sc.dotted(m, fn, n.func, imps)
                if isinstance(d, FuncInfo):
                    callers.setdefault(d.qual, set()).add(q)
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == "self" and cls is not None:
                    for m2, c2, f2, q2 in funcs:
                        if c2 is cls and f2.name == n.func.attr:
                            callers.setdefault(q2, set()).add(q)
    entries = set()
    for q in sink_funcs:
        todo, seen = [q], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            cs = callers.get(x, set()) - {x}
            private = x.rsplit(".", 1)[1].startswith("_")
            if not private or not cs:
                entries.add(x)
            todo += cs
        tops = {x for x in seen if not callers.get(x, set()) - {x} or not x.rsplit(".", 1)[1].startswith("_")}
        for t in sorted(tops):
            if not t.startswith(HOME):
                d, n = sink_funcs[q][0]
                m = byq[q][0]
                found[("foreign", t, d)] = mk("C14", "foreign-deletion", m, n, q, "%s is called (line %d) on behalf of %s, "
                                              "which is not one of the file utilities" % (d, n.lineno, t), t + d)
    for q in sorted(entries):
        if not q.startswith(HOME) and q in {t[1] for t in found}:
            continue
        m, cls, fn, _ = byq[q]
        Walker(sc, q, found, stats).run(m, cls, fn, q)
    # listing of a set of files
    fs = list(found.values())
    nw = 0
    for m, cls, fn, q in funcs:
        for d, n, a in write_sites(sc, m, cls, fn, q):
            nw += 1
            pf = PathFlow(sc, m, cls, fn, q)
            outer = [x for x in byq if q.startswith(x + ".")]
            for o in outer:
                pf.params |= {x.arg for x in byq[o][2].args.args}
                pf2 = PathFlow(sc, *byq[o])
                for k, v in pf2.defs.items():
                    pf.defs.setdefault(k, []).extend(v)
            o = pf.origins(a)
            badf = sorted(x for x in o if x.startswith("bad:") and (q.split(".")[-1], d, x[4:]) not in DOCUMENTED)
            if badf:
                fs.append(mk("C14", "writes-elsewhere", m, n, q, "%s writes to a path that is not the given one (%s)" % (
                    d, badf[0][4:]), d))
            elif o <= {"const"}:
                fs.append(mk("C14", "writes-elsewhere", m, n, q, "%s writes to a fixed path" % d, d))
    if nsinks < 1 or nw < 5 or stats["judged"] < 4:
        raise SystemExit("C14: too few sinks analysed (%d deletions, %d writes, %d judged)" % (nsinks, nw, stats["judged"]))
    return {"findings": fs, "coverage": {
        "functions": len(funcs), "deletion_sites": nsinks, "deletion_states_judged": stats["judged"],
        "prompts": len(stats["prompts"]), "entries": len(entries), "writing_sites": nw, "statements_walked": stats["steps"],
        "explanation": "path walk of every function from which a deletion is reachable: on every path reaching the deletion "
        "the possible answers at every prompt in scope are affirmative ones, the argument is the listed entry of the "
        "current iteration, selected by the announced filters; writing calls take their path from a parameter"},
        "assumptions": ["answers are followed through %d representative strings" % len(ANSWERS),
                        "loops over entries are followed for up to two iterations, re-prompts for up to three"]}
