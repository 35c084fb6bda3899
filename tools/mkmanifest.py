"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import props

MODEL = "model-based property testing: generated declarations, argument sweeps and histories against an independent bit-level reference model, with shrinking"
TECH = {
    "C11": "stateful property-based testing: long generated call histories against a reference model with per-step invariants, with shrinking",
    "C12": "differential property testing: generated histories on integer, inline-array and heap-array twins of one declaration",
    "C13": "property-based testing: generated bitflag enums, exhaustive (u8/u16) or boundary-biased values against a lookup-table oracle, plus compile probes",
    "C14": "grammar-based fuzzing of declarations: generated well-formed ones must compile, single-fault mutations of them must be rejected without a macro panic",
    "C15": "property-based testing with compile probes: generated declarations, every documented item probed for presence, absence and visibility",
    "C16": "property-based testing with compile probes over random switch combinations, plus differential histories against the all-enabled twin",
    "C17": "property-based testing: random feature sets and arguments; API probes and histories against the declaration with the same settings spelled out",
    "C19": "model-based property testing: generated custom/nested/bitflag field declarations against a reference model and a flattened-layout twin",
    "C20": "differential property testing: generated histories evaluated in constants versus at run time, and compiled under no_std, forbid(unsafe_code), deny(warnings)",
    "C21": "fuzzing with extreme arguments, differential between the overflow-checked and the optimised build",
    "C23": "grammar-based fuzzing of the syntactic context: generated declarations placed in generated macro, scope, shadowing, edition and formatting contexts, histories against the reference model",
    "C22": "differential property testing: generated histories with and without ignored fields, plus a model of the ignored fields",
}
NOTE = ("Randomised exploration over generated declarations and inputs; deterministic for a VERIF_SEED. Everything generated is judged, nothing is proved beyond it. "
        "Trusts rustc, the reference model in rt/src/model.rs (written from the documentation) and the emitted glue.")
ALL = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m vf setup", "checks": [], "not_applicable": []}
for p in ALL:
    if p in props.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 -m vf {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m vf {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, MODEL), "level": "exploration", "level_note": NOTE})
    else: m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
