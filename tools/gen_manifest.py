#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS, TECH, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", checks=[], not_applicable=[],
         notes="Every check builds the harness and the needed sources of /repo into /verif/build (ignored by git), runs monitored workloads and writes evidence/<id>.json. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                technique=TECH.get(i, "runtime monitoring: randomised workloads on the real code, online monitor with an independent reference"), level=CHECKS[i]["level"],
                                level_note="explores executions; holds on what was observed (see coverage in the evidence file)"))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not covered yet: the monitor for this property is not built")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
