#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table (run by hand after edits)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, TEXT, NOT_APPLICABLE
with open(V + "/properties.jsonl", "w") as f:
    for pid, t in sorted(list(TEXT.items()) + [(k, v["text"]) for k, v in NOT_APPLICABLE.items()]):
        assert len(t["title"]) <= 80, (pid, len(t["title"]))
        f.write(json.dumps({"id": pid, **t}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build",
     "hooks": {"guard": "ROUGHPY_SIM", "enable": "no hook in /repo was needed: checks compile /repo's unmodified sources with "
               "-fsanitize=thread instrumentation served by the simulator instead of the ThreadSanitizer runtime, and interpose libc and "
               "pthread entry points at link time", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NOT_APPLICABLE.items())]}
for pid, p in sorted(PROPS.items()):
    m["checks"].append({"property": pid, "quick_cmd": f"python3 tools/check.py {pid} --tier quick",
                        "thorough_cmd": f"python3 tools/check.py {pid} --tier thorough",
                        "evidence_file": f"evidence/{pid}.json",
                        "technique": "deterministic simulation with fault injection (seeded search over schedules and fault plans)",
                        "level": p.get("level", "exploration"), "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
