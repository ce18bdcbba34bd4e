"""Runs the abstract interpreter on every entry point and evaluates the exit-state rules."""
import ast
import os
import time
import hashlib
import pickle
import multiprocessing
import traceback
import warnings
from .prog import Program, FuncInfo, PropInfo
from .schema import Schema
from .engine import Engine, Budget
from .values import *
from . import entries, rules

DATA = ["Field", "ScalarField", "VectorField", "Profile", "Points", "OrientedPoints", "TemporalScalarFields",
        "TemporalVectorFields", "SpatialScalarFields", "SpatialVectorFields", "TemporalPoints"]
OTHER = ["CritPoints", "MeanTrajectory", "TopoPoints", "ModalFields", "Vortex", "SolidVortex", "FreeVortex",
         "BurgerVortex", "HillVortex", "LambOseenVortex", "RankineVortex", "LambChaplyginVortex", "PersoVortex",
         "CustomField", "Wall", "VortexSystem", "HsvSystem", "StepSystem", "BlasiusBL", "FalknerSkanBL", "ThwaitesBL",
         "WallLaw", "WakeLaw", "System", "object_0D", "object_1D", "object_2D", "Panel", "FTLE", "Stabilizer",
         "POD_CP_protocol", "VF", "Files", "ProgressCounter"]


class Entry(object):
    def __init__(self, cls, fi, kind, scen):
        self.cls, self.fi, self.kind, self.scen = cls, fi, kind, scen

    @property
    def name(self):
        sc = ",".join("%s=%r" % kv for kv in sorted(self.scen.items()))
        c = self.cls.name + "." if self.cls is not None else ""
        return "%s%s%s%s" % (c, self.fi.name, {"get": ".getter", "set": ".setter"}.get(self.kind, ""),
                             "(%s)" % sc if sc else "")


def entries_of(prog):
    out = []
    for cn in DATA + OTHER:
        ci = prog.cls(cn)
        if ci is None:
            continue
        for nm, m in sorted(entries.methods_of(ci).items()):
            if isinstance(m, PropInfo):
                if m.fget is not None:
                    out.append(Entry(ci, m.fget, "get", {}))
                if m.fset is not None:
                    out.append(Entry(ci, m.fset, "set", {}))
            elif isinstance(m, FuncInfo):
                if cn not in DATA and m.cls is not ci:
                    continue
                if "inplace" in m.params:
                    out.append(Entry(ci, m, "method", {"inplace": False}))
                    out.append(Entry(ci, m, "method", {"inplace": True}))
                else:
                    out.append(Entry(ci, m, "method", {}))
    for f in prog.functions:
        if f.cls is None and f.parent is None:
            if "inplace" in f.params:
                out.append(Entry(None, f, "func", {"inplace": False}))
                out.append(Entry(None, f, "func", {"inplace": True}))
            else:
                out.append(Entry(None, f, "func", {}))
    return out


def literal_defaults(fi):
    """Parameters with an immutable literal default value."""
    d = {}
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
        (k.arg, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]
    for p, v in pairs:
        try:
            x = ast.literal_eval(v)
        except Exception:
            continue
        if not isinstance(x, (list, dict, set)):
            d[p] = x
    return d


def run_scen(prog, schema, e, max_steps, rec, fix=None, max_states=None):
    """One run of entry e with the parameters of `fix` set to the given constants; adds its findings to rec."""
    eng = Engine(prog, schema, max_steps=max_steps, **({"max_states": max_states} if max_states else {}))
    eng.empty_ok = e.fi.name == "add_field"
    eng.param_units = entries.param_units(e.fi)
    st = State()
    status = "ok"
    try:
        fixed = {k: C(v) for k, v in (fix or {}).items()}
        fixed.update({k: C(v) for k, v in e.scen.items()})
        if e.fi.name == "add_field" and "copy" in e.fi.params:
            fixed["copy"] = C(True)     # documented: copy=False hands the given field over
        args, kw = entries.make_args(eng, st, e.fi, prog, e.cls, fixed)
        exits = eng.run_entry(F(e.fi), args, st, kw)
        keys = {f["key"] for f in rec["findings"]}
        new = rules.evaluate(eng, e, exits, rec["stats"], _G.get("prop"))
        rec["exits"] += len(exits)
        rec["returns"] += sum(1 for x in exits if x.kind == "return")
        rec["findings"] += [f for f in new if f["key"] not in keys]
    except Budget:
        status = "budget"
    except RecursionError:
        status = "recursion"
    except Exception:
        status = "internal: %s" % traceback.format_exc()[-600:]
    have = set(map(repr, rec["notes"]))
    rec["notes"] += [n for n in eng.findings.values() if repr(n) not in have]
    rec["steps"] += eng.steps
    rec["calls"] += eng.calls_seen
    rec["funcs"] |= set(eng.funcs_seen)
    rec["runs"] += 1
    return status, eng.merged


BAD_STR = "\u2205bad\u2205"


def run_one(prog, schema, e, max_steps):
    """General run (every parameter symbolic); where that exceeds the budget, or had to merge states, further runs in
    which all optional parameters but one have their default value."""
    t = time.time()
    rec = {"entry": e.name, "func": e.fi.qual, "kind": e.kind, "findings": [], "status": "ok", "exits": 0, "stats": {},
           "notes": [], "steps": 0, "calls": 0, "funcs": set(), "runs": 0, "returns": 0}
    status, merged = run_scen(prog, schema, e, max_steps, rec)
    rec["merged"] = merged
    rec["status"] = status
    if status == "budget" or merged:
        pu = entries.param_units(e.fi)
        paired = {x[4:] for kv in pu.items() for x in kv}
        dfl = {k: v for k, v in literal_defaults(e.fi).items()
               if k not in e.scen and k not in paired and not k.startswith("unit_")}
        if dfl or status == "budget":
            s2, m2 = run_scen(prog, schema, e, max_steps, rec, dfl, 6 if status == "budget" else None)
            if s2 == "ok" and status == "budget":
                rec["status"] = "partial"
            if s2 == "ok" and len(dfl) > 1:
                for p in sorted(dfl):
                    run_scen(prog, schema, e, max(max_steps // 6, 3 * rec["steps"] // max(rec["runs"], 1) // 10), rec,
                             {k: v for k, v in dfl.items() if k != p}, 6 if status == "budget" else None)
    if _G.get("bad"):
        # each argument in turn is a value of the wrong kind
        ps = list(e.fi.params) + list(e.fi.kwonly)
        for p in ps[1:] if e.cls is not None and not e.fi.is_static else ps:
            if p in e.scen:
                continue
            ty = entries.param_types(prog, e.fi, p)
            for v in ((-98765.25,) if ty is not None and "str" in ty else (BAD_STR,)):
                dfl = {k: d for k, d in literal_defaults(e.fi).items() if k not in e.scen}
                opt = {k: d for k, d in dfl.items() if isinstance(d, (str, bool))}
                for fix in (opt, dfl):
                    sub = dict(rec, findings=[], stats={}, notes=[], funcs=set())
                    s, merged = run_scen(prog, schema, e, max(max_steps // 6, 20000), sub, dict(fix, **{p: v}))
                    if s != "ok" or merged:
                        continue
                    keys = {f["key"] for f in rec["findings"]}
                    rec["findings"] += [f for f in sub["findings"] if f["prop"] == "C10" and f["key"] not in keys]
                    for k, n in sub["stats"].items():
                        rec["stats"][k] = rec["stats"].get(k, 0) + n
                    rec["runs"] += 1
                    break
    rec["funcs"] = sorted(rec["funcs"])
    rec["time"] = time.time() - t
    return rec


_G = {}


def _init(root):
    import sys
    sys.setrecursionlimit(6000)
    warnings.simplefilter("ignore")
    _G["prog"] = Program(root)
    _G["schema"] = Schema(_G["prog"])
    _G["entries"] = entries_of(_G["prog"])


def _work(a):
    i, ms = a
    return i, run_one(_G["prog"], _G["schema"], _G["entries"][i], ms)


def tree_hash(root):
    h = hashlib.sha256()
    for base in (root + "/IMTreatment", os.path.dirname(os.path.abspath(__file__))):
        for d, ds, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    h.update((d + f).encode())
                    h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:20]


def run_all(root, max_steps=400000, only=None, jobs=None, bad=False, prop=None):
    cache = os.environ.get("IMTLINT_CACHE")
    if cache and callable(only):
        cache = None
    if cache:
        cache = os.path.join(cache, "%s_%d_%s.pkl" % (tree_hash(root), max_steps, only or ""))
        if os.path.exists(cache):
            return pickle.load(open(cache, "rb"))
    _init(root)
    _G["bad"] = bad
    _G["prop"] = prop
    idx = [i for i, e in enumerate(_G["entries"]) if only is None or (only(e) if callable(only) else only in e.name)]
    jobs = jobs or min(8, os.cpu_count() or 1)
    # big functions first
    idx.sort(key=lambda i: -rules.cost_hint(_G["entries"][i]))
    ctx = multiprocessing.get_context("fork")
    res = {}
    if jobs == 1 or len(idx) < 3:
        for i in idx:
            res[i] = _work((i, max_steps))[1]
    else:
        with ctx.Pool(jobs, maxtasksperchild=6) as pool:
            for i, r in pool.imap_unordered(_work, [(i, max_steps) for i in idx], chunksize=1):
                res[i] = r
    out = [res[i] for i in sorted(res)]
    if cache:
        pickle.dump(out, open(cache, "wb"))
    return out
