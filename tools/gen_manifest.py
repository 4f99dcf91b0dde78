"""Writes MANIFEST.json from the table of checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = "TLA+ specification checked exhaustively with TLC, bound by "
TV = T + "TLC validation of traces recorded from the real code"
RP = T + "replay of TLC-generated behaviours on the real code and TLC validation of the recorded traces"
ASSUME = " Trusts TLC, the projection of the recorded calls (harness/drv_*.py), NumPy/scikit-learn; assurance on the code is for the calls recorded, the design is exhaustive within the constants of the model."
CH = {
    "C01": ("c_sampler.py", TV, "Every registered oversampler on seeded datasets (shapes, labels, layouts, duplicates, degenerate sizes) through sample/fit_resample/sample_with_timing; each call judged by the extensive contract."),
    "C02": ("c_sampler.py", TV, "Quota or decline judged per call against floor(p*(n_maj-n_min)), exact rationals; the design model enumerates all label vectors up to MaxN."),
    "C03": ("c_sampler.py", TV, "Bounding boxes are judged on quantised coordinates, segments and hulls of SMOTE by exact witnesses (Placement.tla); tolerance 3e-6 of the box."),
    "C04": ("c_sampler.py", TV, "Purity, aliasing, finiteness, labels, dimension and transform judged on every call."),
    "C05": ("c05.py", RP, "Call sequences enumerated by the model with perturbations of the global random states, replayed on every sampler and compared by digest."),
    "C06": ("c06.py", RP, "Life cycles of a parameterised object (construct, get, rebuild, JSON, sample) enumerated by the model and replayed on all classes."),
    "C07": ("c07.py", TV, "Relabelling and role exchange pairs on every class."),
    "C08": ("c08.py", TV, "The rules of the filters are transcribed in TLA+ over rank matrices of distances; TLC computes the kept set itself and compares it with the recorded one."),
    "C09": ("c09.py", TV, "Multiclass strategies on recorded calls."),
    "C10": ("c10.py", TV, "Undersampling on recorded calls, ranking of the kept rows judged on ranks of distances."),
    "C11": ("c11.py", RP, "Operation sequences on a cached folding enumerated by the model and replayed; each listing judged against the definition of a repeated stratified folding."),
    "C12": ("c12.py", RP, "Sampling jobs over the product of oversampler behaviours (works, raises each exception, times out, transforms) and forms of input."),
    "C13": ("c13.py", RP, "Crash points, damages, resets and clean-ups enumerated by the model, replayed with fault injection in separate processes."),
    "C14": ("c14.py", RP, "All interleavings of the pool design incl. liveness; completion orders and failures enumerated by the model and replayed on real processes."),
    "C15": ("c15.py", TV, "TLC computes the scores from the recorded vectors in exact integer/rational arithmetic and compares."),
    "C16": ("c16.py", RP, "Configurations of an evaluation enumerated by the model and executed sequentially, in parallel, cached."),
    "C17": ("c17.py", RP, "Result tables enumerated/generated and summarised by the real code."),
    "C18": ("c18.py", TV, "All combinations of query arguments; the specification recomputes the answer from the recorded attributes of the classes."),
    "C19": ("c19.py", TV, "Simplex enumeration, selection and mixing on recorded calls of the core."),
    "C20": ("c20.py", TV, "Integer valued metric tensors and points, so that TLC recomputes distances exactly; chunk sizes varied."),
    "C21": ("c21.py", RP, "Life cycles of the wrapped classifier (fit, predict, clone, set_params, refit) enumerated by the model and replayed."),
    "C22": ("c22.py", RP, "Parameter domains specified as a table; every boundary and outside value enumerated by the model and passed to the constructors."),
    "C23": ("c23.py", TV, "Composite samplers compared with the composition of their parts by specification."),
    "C24": ("c24.py", TV, "Every synthetic sample is traced back to all rows it geometrically lies between; the specification decides from the rank matrix of the distances whether the rule of the sampler allows one of them."),
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f, t, note = CH[p["id"]]
    if not os.path.exists(os.path.join(ROOT, "harness", f)):
        na.append({"property": p["id"], "reason": "the check of this property is not built yet"})
        continue
    cmd = f"{PY} harness/{f} {p['id']}"
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": t, "level": "model_checking",
                   "level_note": note + ASSUME})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ with TLC (spec/). No hooks are needed in /repo: the public API and the files written expose the abstract state."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
