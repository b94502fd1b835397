#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    def rec(pid, p):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": p.get("hook")}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    for pid, p in sorted(list(PROPS.items()) + [(d["property"], d["rec"]) for d in NOT_APPLICABLE]):
        rec(pid, p)
NOTE = "Bounded: Z3 decides every branch and assertion of the real code's LLVM IR over all values within the bounds ({}); counterexamples are replayed against the natively compiled code. Trusted: rustc's lowering to LLVM IR, the symbolic engine (validated per run by native replay of sampled paths and a second solver on sampled queries), the stubs for clock, randomness and allocation."
m = {
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "hooks": {"guard": "sx_hooks", "enable": "RUSTFLAGS=--cfg sx_hooks (build.sh)", "source_commits": ["2f02ee0"]},
    "checks": [
        {"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py " + pid + " thorough",
         "technique": p.get("technique", "symbolic execution of the repository's LLVM IR with Z3 deciding every branch and assertion within stated bounds"),
         "level": "model_checking", "level_note": NOTE.format(p["bounds"])}
        for pid, p in sorted(PROPS.items())
    ],
    "not_applicable": [{"property": d["property"], "reason": d["reason"]} for d in NOT_APPLICABLE],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
