"""Writes MANIFEST.json from properties.jsonl and the proof specifications present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PART = {}  # property -> what is proved only in part
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(line)
    pid = d["id"]
    spec = os.path.exists(os.path.join(H, "pydv", "specs", pid + ".py"))
    checks.append(dict(
        property=pid,
        quick_cmd=f"VERIF_TIER=quick python3 check.py {pid}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=("contract-based deductive verification: own verification-condition generator over the real Python source, obligations discharged by z3; counterexamples replayed on the real code" if spec else
                   "contracts evaluated on the real code over a bounded set of inputs (bounded stand-in for the deductive verifier)"),
        level="proof" if spec else "exploration",
        level_note=open(os.path.join(H, "tools", "notes", pid + ".txt")).read().strip() if os.path.exists(os.path.join(H, "tools", "notes", pid + ".txt")) else (
            "bounded: the contract of the property is evaluated on the real code for the inputs counted in the evidence; not proved"),
    ))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
