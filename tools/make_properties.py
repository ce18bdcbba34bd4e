"""Writes /verif/properties.jsonl (kept as a script so that the prose stays editable)."""
import json, os
CORE = ["IMTreatment/core/field.py", "IMTreatment/core/scalarfield.py", "IMTreatment/core/vectorfield.py",
        "IMTreatment/core/fields.py", "IMTreatment/core/temporalfields.py", "IMTreatment/core/temporalscalarfields.py",
        "IMTreatment/core/temporalvectorfields.py", "IMTreatment/core/spatialfields.py", "IMTreatment/core/profile.py",
        "IMTreatment/core/points.py", "IMTreatment/core/orientedpoints.py", "IMTreatment/core/temporalpoints.py"]
TREAT = ["IMTreatment/field_treatment/field_treatment.py", "IMTreatment/vortex_criterions/vortex_criterions.py",
         "IMTreatment/vortex_detection/vortex_detection.py", "IMTreatment/vortex_creation/vortex_creation.py",
         "IMTreatment/vortex_properties/vortex_properties.py", "IMTreatment/boundary_layer/boundary_layer.py",
         "IMTreatment/potential_flow/potential_flow.py", "IMTreatment/pod/pod.py", "IMTreatment/stabilize/stabilize.py",
         "IMTreatment/protocols/protocols.py"]
IO = ["IMTreatment/file_operation/file_operation.py"]
UT = ["IMTreatment/utils/files.py", "IMTreatment/utils/units.py", "IMTreatment/utils/memoization.py",
      "IMTreatment/utils/codeinteraction.py", "IMTreatment/utils/multithreading.py"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
