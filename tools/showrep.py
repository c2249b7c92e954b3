#!/usr/bin/env python3
"""Print the rejected event of a replay file, compactly."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["clause"], "event", d.get("event"), "of", len(d.get("session", {}).get("ev", [])), "total", d.get("total_rejections"))
for i, e in enumerate(d.get("session", {}).get("ev", []), 1):
    print(" ", "*" if i == d["event"] else " ", json.dumps(e)[:1500])
if "driver" in d: print(d["driver"][-3000:])
