"""Per-property deciders."""
import collections
from . import facts, rules

ENGINE = {
    "C01": "every heap object reachable from the receiver holds, at every exit of every query, operator, display or "
           "non-in-place call, its initial content (cells that are masked in the object excepted)",
    "C02": "every object, array, list or dictionary rooted at a parameter or at a default value holds its initial "
           "content at every exit of every public function",
    "C03": "no array, list or object reachable from the result of a non-in-place call (or from the receiver after a "
           "call that stores data) is, or is a view of, storage rooted at the receiver or at an argument",
    "C05": "along every returning path, the unit monomial carried by each stored array (numbers x monomial = quantity) equals "
           "the unit stored beside it, and numbers carrying different monomials are never added, compared or stored together",
    "C06": "on every returning path, for each field or profile in the result and each masked operand its data are computed from "
           "point by point, the provenance expression of the result's mask is true wherever the operand's mask is",
    "C07": "on every returning path, the sequence of selections, reversals, transpositions and rotations applied to the coordinates, "
           "to each data component and to the mask of the same source object is the same along each axis",
    "C08": "on every returning path, each axis, unit and component of a result is derived from the same axis, unit or component of the "
           "operands and never from the parameter that concerns the other direction",
    "C10": "at every `raise` of a setter, in-place or mutating method guarded by a test of its arguments, everything "
           "reachable from the receiver still has its initial content",
    "C11": "on every path of every __eq__ that returns True, each stored part of the receiver has been compared for equality "
           "with the same part of the other object; no path raises or returns None",
    "C04": "with inplace=False every returning path returns a new object; with inplace=True none does",
}
ASSUME = ["numpy/scipy/unum calls behave as modelled in imtlint/models.py (views, copies, in-place functions)",
          "parameters have the types given in the documentation or by the default value",
          "entries whose state space exceeds the step budget are re-run with all optional parameters but one at their "
          "default; those still beyond the budget are listed under undecided_entries and not judged",
          "loops are analysed by two abstract rounds and a join"]

ABS = "abstract interpretation (heap ownership / provenance dataflow) of every public entry point"
NOTE = ("Exhaustive over the paths of the abstract semantics of each decided entry point, for all inputs of the documented types; "
        "relies on the models of numpy/scipy/unum/copy in imtlint/models.py; entry points beyond the step budget are "
        "listed as undecided in the evidence and not judged; joins at loops and over-forking points may hide a "
        "violation but a report always names the writing construct and the path.")
CHECKS = {k: {"technique": ABS, "note": NOTE} for k in ENGINE}
for k, what in (("C06", "masks"), ("C07", "selections"), ("C08", "coordinates")):
    CHECKS[k] = {"technique": "abstract interpretation: provenance expressions of coordinates, data and masks of every result",
                 "note": NOTE + " A report needs a definite contradiction between the provenance expressions of the %s; expressions built by "
                 "calls the rule does not know are counted and not judged." % what}


STEPS = {"quick": 120000, "thorough": 1000000}
# entries to which the rule of a property can apply (the others carry no obligation)
FILTER = {"C04": lambda e: "inplace" in e.scen,
          "C10": lambda e: e.cls is not None and rules.role_of_entry(e) in ("setter", "inplace", "mutator"),
          "C11": lambda e: e.fi.name == "__eq__"}
MIN_ENTRIES = {"C04": 30, "C10": 100, "C11": 5}


def engine_decide(pid, root, tier):
    res = facts.run_all(root, max_steps=STEPS[tier], only=FILTER.get(pid), bad=pid == "C10", prop=pid)
    fs, und, stats = [], [], collections.Counter()
    part = []
    paths = 0
    funcs = set()
    for r in res:
        if r["status"] == "partial":
            part.append(r["entry"])
        elif r["status"] != "ok":
            und.append("%s: %s" % (r["entry"], r["status"].splitlines()[-1][:120]))
            continue
        paths += r["exits"]
        funcs.update(r["funcs"])
        for k, v in r["stats"].items():
            if k.startswith(pid + "."):
                stats[k.split(".", 1)[1]] += v
        fs.extend(f for f in r["findings"] if f["prop"] == pid)
    if len(res) < MIN_ENTRIES.get(pid, 300) or paths == 0:
        raise SystemExit("analysis found no entry points to decide")
    cov = {"explanation": "abstract interpretation of every public entry point of the package; rule: " + ENGINE[pid],
           "entries": len(res), "entries_decided": len(res) - len(und) - len(part), "undecided_entries": und,
           "entries_decided_one_option_at_a_time": part, "runs": sum(r["runs"] for r in res),
           "exit_states": paths, "functions_interpreted": len(funcs),
           "calls_interpreted": sum(r["calls"] for r in res)}
    cov.update({"obligations_" + k: v for k, v in stats.items()})
    return {"findings": fs, "coverage": cov, "assumptions": ASSUME}


NOTE_KINDS = {"missing-attribute", "bad-call", "bad-import", "readonly-property", "undefined-name"}


def definite_note(n):
    if n["kind"] in NOTE_KINDS:
        return n["numf"] <= 2
    if n["kind"] == "unbound-local":
        # reached with nothing undetermined but the options passed by the caller
        return n["numf"] == 0 and bool(n["trail"]) and all(
            t.startswith("arg:") and ("==" in t or "!=" in t) for t in n["trail"])
    return False


def c12(root, tier):
    from . import names
    fs, stats = names.decide(root, tier)
    res = facts.run_all(root, max_steps=STEPS[tier])
    keys = set()
    notes = 0
    for r in res:
        for n in r["notes"]:
            notes += 1
            if not definite_note(n):
                continue
            key = "C12|%s|%s|%s" % (n["kind"], n["func"], n["msg"])
            if key in keys or any(f["func"] == n["func"] and f["line"] == n["line"] for f in fs):
                continue
            keys.add(key)
            fs.append({"prop": "C12", "rule": n["kind"], "file": n["file"], "line": n["line"], "func": n["func"],
                       "msg": "%s: %s (reached from %s)" % (n["func"].split(".", 1)[-1], n["msg"], r["entry"]),
                       "key": key, "extra": {"trail": list(n["trail"][:8]), "stack": [list(s) for s in n["stack"][:8]]}})
    if stats["functions"] < 500 or stats["calls"] < 500:
        raise SystemExit("C12: too few sites analysed")
    cov = dict(stats)
    cov.update({"explanation": "every name, package import, attribute of self / package modules / classes / numpy / "
                "locals of known class, and every call of a resolved package function or class is checked against what "
                "the source defines; plus attribute and call errors met while interpreting every public entry point",
                "entries": len(res), "entries_decided": sum(1 for r in res if r["status"] in ("ok", "partial")),
                "interpreter_diagnostics_considered": notes})
    return {"findings": fs, "coverage": cov, "assumptions": ASSUME + [
        "objects are not given attributes through setattr with computed names"]}


def c15(root, tier):
    from . import effects
    return effects.c15(root, tier)


def c16(root, tier):
    from . import effects
    return effects.c16(root, tier)


def c14(root, tier):
    from . import fileops
    return fileops.c14(root, tier)


def c19(root, tier):
    from . import history
    return history.c19(root, tier)


def c13(root, tier):
    from . import options
    return options.decide(root, tier)


SPECIAL = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C19": c19}
CHECKS["C19"] = {"technique": "taint analysis of nondeterministic sources, write/invalidate analysis of module, class and "
                 "per-object cached state",
                 "note": "Numerical reproducibility of third-party libraries and hash-order effects are outside the analysis."}
CHECKS["C13"] = {"technique": "abstract interpretation of every public function with an unknown and with each documented option value",
                 "note": "One option at a time, the others at their default. Values handed to numpy/scipy/matplotlib are "
                         "assumed to be judged there. Options whose state space exceeds the step budget are listed as undecided."}
CHECKS["C14"] = {"technique": "path-sensitive typestate analysis of prompts and deletion calls, provenance of written paths",
                 "note": "Answers are abstracted by representative strings; loops followed for two entries; writing calls are "
                         "judged by where their path comes from, not by the file system state."}
CHECKS["C15"] = {"technique": "typestate analysis with exceptional edges over the syntax tree of every function",
                 "note": "Effects recognised: gc, warnings filters, numpy error state, matplotlib rc, cwd, environment, "
                         "recursion limit, random seed, file descriptors, open files. Third-party functions are trusted."}
CHECKS["C16"] = {"technique": "taint / sink analysis: every dynamic-execution and deserialisation sink, plus a check of the "
                 "unit parser's accepted syntax",
                 "note": "Pickle files are trusted input by design (documented in DESIGN.md) and restricted to the .imt reader."}
CHECKS["C12"] = {"technique": "scope/attribute/signature resolution over the syntax tree and class hierarchy, plus typed "
                 "attribute and call errors found by the abstract interpreter",
                 "note": "A report is a definite resolution failure (no class of the hierarchy defines it, no parameter list "
                         "fits, no path assigns it). Receivers whose type cannot be inferred are not judged."}


def decide(pid, root, tier):
    if pid in SPECIAL:
        return SPECIAL[pid](root, tier)
    if pid in ENGINE:
        return engine_decide(pid, root, tier)
    raise SystemExit("unknown property " + pid)
