#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, re, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from plan import PLAN, NA
props = [json.loads(l)["id"] for l in open(os.path.join(D, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses rsasl's public API (features testutils-free provider, config_builder, unstable_custom_mechanism) and dependency stand-ins through [patch.crates-io]", "source_commits": []}}
for p in props:
    if p in PLAN:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "path-wise symbolic execution of the compiled code's LLVM IR with Z3 (irsym), native replay of counterexamples and path samples", "level": "model_checking",
            "level_note": "Every path of the real code within the stated bounds is explored and every assertion on it decided by the solver for all values: " + "; ".join(sorted({re.sub(r"\{\d+\}", "k", x["bounds"]) for x in PLAN[p]}))[:600] + " (k: the parameters in the evidence file)" + ". Trusts rustc/LLVM, Z3, the engine's IR semantics (cross-checked by replaying paths natively) and the stand-ins for rand, stringprep, libgssapi."})
    else: m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump(m, open(os.path.join(D, "..", "MANIFEST.json"), "w"), indent=1)
