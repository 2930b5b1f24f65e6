#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import plan
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "technique": "bounded symbolic execution of the rustc LLVM IR of the real code, branches and assertions decided by z3 over bit-vectors; counterexamples replayed natively",
                 "level": "model_checking",
                 "level_note": "Bounded: " + plan.PLAN[i]["bounds"] + ". Outside: " + (plan.PLAN[i]["outside"] or "nothing") + ". Trusts the engine's IR semantics, z3 and rustc's lowering; sampled paths and every counterexample are compared with native runs."}
                for i in ids if i in plan.PLAN],
     "not_applicable": [{"property": i, "reason": plan.NA.get(i, "no check built yet")} for i in ids if i not in plan.PLAN],
     "hooks": {"guard": "telsym", "enable": "RUSTFLAGS='--cfg telsym' for the harness build (tools/build.py); the tools and /repo's own build never set it", "source_commits": ["f489d98"]},
     "notes": "Besides one hook that exposes the emulated kernel module, the checks use the crate's public interface and the tools' command lines only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
