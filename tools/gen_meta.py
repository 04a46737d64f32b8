"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import table  # noqa: E402

mods = {m.split("_")[0].upper() for m in os.listdir(os.path.join(VERIF, "harness/props"))
        if m.endswith(".py") and m[0] != "_"}
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in table.PROPERTIES:
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                 "why_tests_cant", "anchors")}
        assert len(rec["title"]) <= 80, rec["id"]
        fh.write(json.dumps(rec) + "\n")
checks, na = [], []
for p in table.PROPERTIES:
    if p["id"] in mods:
        cmd = f"bash harness/run.sh {p['id']}"
        checks.append({
            "property": p["id"], "quick_cmd": cmd,
            "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "model_checking",
            "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
man = {"version": 1, "setup_cmd": "bash harness/setup.sh", "checks": checks,
       "not_applicable": na,
       "notes": "All checks: TLA+ specifications in specs/, checked with TLC and bound to "
                "the code in /repo by replaying every transition of the explored state "
                "graph into real objects and/or by validating recorded executions. No "
                "hooks in /repo: the public interface shows the state. stubs/ holds "
                "stand-ins for the two libraries absent from the sandbox."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
