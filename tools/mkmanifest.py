#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": s.get("technique", "runtime monitoring: online model oracle over randomized histories on the real code under ASan+UBSan"),
                       "level": "exploration", "level_note": s.get("note", "bounded by the generated histories; see DESIGN.md")})
na = [{"property": i, "reason": props.NA.get(i, "check not built yet")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "MAP_VERIF_MONITOR", "enable": "-DMAP_VERIF_MONITOR (set by run.py; no hooks were needed so far)", "source_commits": []}}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
