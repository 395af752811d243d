#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the stages that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = ("TLC checks recorded executions of the real engines against the TLA+ machine specification (every register, byte, flag, "
        "counter and result compared)%s; trusts the specification, TLC, and the recorder in harness/. Bounded by the cases explored.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in stages.STAGES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "TLA+ specification checked with TLC; recorded executions conformed to it" +
                         (" and TLC behaviours replayed on the code" if i in stages.MODELS else ""),
            "level": "model_checking",
            "level_note": NOTE % ("; small instances explored exhaustively by TLC" if i in stages.MODELS else ""),
        })
    else:
        na.append({"property": i, "reason": stages.NOT_YET.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses only public items of ckb-vm (feature asm)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification: spec/*.tla (TLA+, TLC). Driver: check.py. Harness: harness/ (Rust). See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
