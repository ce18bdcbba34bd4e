"""C13: every public function rejects an option value it does not know.

For every public function and every parameter that selects between named alternatives (somewhere in the package a parameter
of that name is compared with string constants), the function is interpreted with a string that no source text mentions.
Every path has to end in an exception; a path that returns is a violation, unless the value was handed to code outside the
package on that path (which then judges it).  The documented alternatives are interpreted the same way: at least one
path has to return."""
import ast
import re
import time
import multiprocessing
import traceback
from .prog import FuncInfo, PropInfo
from .engine import Engine, Budget
from .values import *
from . import entries, facts, rules

NOVEL = "\u2205unknown\u2205"
# parameters that carry free text, names, paths, units
FREE = {"name", "filepath", "filename", "path", "dir", "title", "label", "color", "c", "cmap", "unit", "new_unit", "mess", "text",
        "init_mess", "name_things", "regex", "ext", "extension", "axe_names"}


def string_tests(fi):
    """parameter -> string constants it is compared with in fi"""
    ps = set(fi.params) | set(fi.kwonly)
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for a, b in ((l, r), (r, l)):
                if isinstance(a, ast.Name) and a.id in ps:
                    if isinstance(b, ast.Constant) and isinstance(b.value, str) and \
                            isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                        out.setdefault(a.id, set()).add(b.value)
                    if isinstance(b, (ast.List, ast.Tuple, ast.Set)) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                            a is l and b.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in b.elts):
                        out.setdefault(a.id, set()).update(x.value for x in b.elts)
    return out


def doc_values(fi, p):
    """alternatives quoted in the documentation of parameter p (its line and the indented lines below)"""
    lines = (ast.get_docstring(fi.node) or "").splitlines()
    for i, line in enumerate(lines):
        m = re.match(r"^(\s*)([\w, *]+?)\s*:\s*(.+)$", line)
        if m and p in [x.strip().lstrip("*") for x in m.group(2).split(",")]:
            text = [m.group(3)]
            for l in lines[i + 1:]:
                if l.strip() and len(l) - len(l.lstrip()) <= len(m.group(1)):
                    break
                text.append(l.strip())
            vs = set(re.findall(r"(?<![\w])['‘\"]([\w-]+)['’\"](?![\w(])", " ".join(text)))
            return {v for v in vs if v not in fi.params and v not in ("True", "False", "None") and not v.isdigit()} | \
                {v for v in vs if v.isdigit() and "string" in m.group(3)}
    return set()


def run(prog, schema, e, p, value, max_steps, free=False):
    eng = Engine(prog, schema, max_steps=max_steps, max_states=8)
    eng.novel = NOVEL
    eng.empty_ok = False
    eng.param_units = {}
    st = State()
    fixed = {k: C(v) for k, v in facts.literal_defaults(e.fi).items()
             if k not in e.scen and not k.startswith("unit_") and not free}
    fixed.update({k: C(v) for k, v in e.scen.items()})
    fixed[p] = C(value)
    args, kw = entries.make_args(eng, st, e.fi, prog, e.cls, fixed)
    exits = eng.run_entry(F(e.fi), args, st, kw)
    return eng, exits


_G = facts._G


def candidates(prog):
    names = {}
    for f in prog.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        for p, vs in string_tests(f).items():
            names.setdefault(p, set()).update(vs)
    out = []
    for i, e in enumerate(_G["entries"]):
        if rules.role_of_entry(e) == "internal" and e.fi.name != "__init__" or e.kind in ("get", "set"):
            continue
        if isinstance(e.fi.node, ast.Lambda):
            continue
        if e.scen.get("inplace") is True:
            continue
        for p in list(e.fi.params) + list(e.fi.kwonly):
            if len(names.get(p, ())) < 2 or p in FREE or p == "self":
                continue
            t = entries.param_types(prog, e.fi, p)
            if t is not None and "str" not in t:
                continue
            if re.search(r"\blists? of\b|\barray", entries.doc_line(ast.get_docstring(e.fi.node), p) or ""):
                continue
            if t is None and p not in string_tests(e.fi):
                continue
            out.append((i, p))
    return out


def work(a):
    i, p, ms = a
    e = _G["entries"][i]
    t = time.time()
    r = {"entry": e.name, "qual": e.fi.qual, "param": p, "status": "ok", "returns": 0, "ext": 0, "raises": 0, "unread": 0, "line": e.fi.lineno,
         "file": e.fi.module.rel, "trail": ()}
    try:
        eng, exits = run(_G["prog"], _G["schema"], e, p, NOVEL, ms)
        for x in exits:
            if x.kind == "raise":
                r["raises"] += 1
            elif any(ev[0] == "novel-ext" for ev in x.st.events):
                r["ext"] += 1
            elif not any(ev[0] == "novel-cmp" for ev in x.st.events):
                r["unread"] += 1
            else:
                r["returns"] += 1
                if not r["trail"] or x.st.numf < r["numf"]:
                    r["trail"], r["numf"] = tuple(x.st.trail[:8]) or ("-",), x.st.numf
    except Budget:
        r["status"] = "budget"
    except Exception:
        r["status"] = "internal " + traceback.format_exc()[-300:]
    r["time"] = time.time() - t
    return r


def run_all(root, max_steps):
    facts._init(root)
    cs = candidates(_G["prog"])
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
        return list(pool.imap(work, [(i, p, max_steps) for i, p in cs], chunksize=1))


def work_doc(a):
    i, p, v, ms = a
    e = _G["entries"][i]
    try:
        eng, exits = run(_G["prog"], _G["schema"], e, p, v, ms)
    except Budget:
        return a, "budget"
    except Exception:
        return a, "internal"
    if not exits:
        return a, "noexit"
    if all(x.kind == "raise" for x in exits):
        # it may need another option to be given as well
        try:
            eng, exits = run(_G["prog"], _G["schema"], e, p, v, ms, free=True)
        except Budget:
            return a, "budget"
    return a, "accepted" if any(x.kind != "raise" for x in exits) else "rejected"


def decide(root, tier):
    facts._init(root)
    prog = _G["prog"]
    cs = candidates(prog)
    ms = 300000 if tier == "quick" else 2000000
    dm = 60000 if tier == "quick" else 600000
    docs = [(i, p, v, dm) for i, p in cs for v in sorted(doc_values(_G["entries"][i].fi, p))]
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
        r1 = pool.map_async(work, [(i, p, ms) for i, p in cs], chunksize=1)
        r2 = pool.map_async(work_doc, docs, chunksize=1)
        r1, r2 = r1.get(), r2.get()
    fs, keys = [], set()

    def add(rule, file, line, func, msg, key, extra):
        if key not in keys:
            keys.add(key)
            fs.append({"prop": "C13", "rule": rule, "file": file, "line": line, "func": func, "msg": msg, "key": key,
                       "extra": extra})
    und = []
    for r in r1:
        q = r["qual"].split(".", 1)[-1]
        if r["status"] != "ok":
            und.append("%s(%s): %s" % (r["entry"], r["param"], r["status"].splitlines()[-1][:80]))
        elif r["returns"]:
            add("accepts-unknown", r["file"], r["line"], r["qual"],
                "%s returns although '%s' is a string the package does not know" % (q, r["param"]),
                "C13|accepts-unknown|%s|%s" % (q, r["param"]), {"trail": list(r["trail"])})
    nd = 0
    for (i, p, v, _), res in r2:
        e = _G["entries"][i]
        q = e.fi.qual.split(".", 1)[-1]
        if res in ("accepted", "rejected"):
            nd += 1
        else:
            und.append("%s(%s=%r): %s" % (e.name, p, v, res))
        if res == "rejected":
            add("rejects-documented", e.fi.module.rel, e.fi.lineno, e.fi.qual,
                "%s raises on every path for the documented value %s=%r" % (q, p, v),
                "C13|rejects-documented|%s|%s|%s" % (q, p, v), {})
    if len(cs) < 80 or len(docs) < 100:
        raise SystemExit("C13: too few options found")
    cov = {"explanation": "every public function is interpreted, for each parameter that selects between named alternatives, with a "
           "string the package never mentions (every path has to raise, or hand the value to code outside the package) "
           "and with each alternative quoted in its documentation (some path has to return)",
           "entries": len({i for i, p in cs}), "options": len(cs), "documented_alternatives": len(docs),
           "documented_alternatives_decided": nd, "rejecting_options": sum(1 for r in r1 if r["status"] == "ok" and not r["returns"]),
           "undecided_entries": und}
    return {"findings": fs, "coverage": cov, "assumptions": [
        "optional parameters other than the one examined keep their default value",
        "a parameter is an option when parameters of that name are compared with at least two string constants",
        "numpy/scipy/matplotlib reject the option values they do not know"]}
