#!/usr/bin/env python3
# Writes MANIFEST.json from props.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": "none",
               "enable": "no hooks: the seam is symbol interposition (sim/interpose.c); /repo's sources are compiled unchanged by sim/build.py",
               "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "check.py PROP builds from /repo's working tree and runs the search; sim replay: build/nmsim replay --lib=build/libnm.so FILE"}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
open(H + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
