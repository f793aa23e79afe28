#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import META
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    from meta import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
with open(V + "/properties.jsonl", "w") as f:
    for i in sorted(META):
        f.write(json.dumps(META[i]) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 vf/build.py rel h_seq",
    "checks": [dict(property=i, quick_cmd="python3 vf/check.py %s --tier quick" % i,
                    thorough_cmd="python3 vf/check.py %s --tier thorough" % i,
                    technique=PROPS[i]["technique"], level=PROPS[i].get("level", "exploration"),
                    level_note=PROPS[i]["level_note"]) for i in sorted(PROPS)],
    "not_applicable": [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet"))
                       for i in sorted(META) if i not in PROPS],
    "notes": "No hooks in /repo: instrumentation is applied from outside (compiler flags, a force-included header that turns atomics into schedule points, and link-time wrapping of the device calls).",
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
