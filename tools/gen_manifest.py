#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the list of properties."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.specs import SPECS, NOT_APPLICABLE

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i in SPECS:
        s = SPECS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3-vt check.py {i}",
            "thorough_cmd": f"python3-vt check.py {i} thorough",
            "technique": s.get("technique", "abstract interpretation of the sources"),
            "level": s["level"],
            "level_note": s["explanation"] + " Trusted: " + " ".join(s["assumptions"]),
        })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "Not claimed yet.")} for i in ids if i not in SPECS]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are static: they parse /repo's current sources and interpret them over abstract domains; nothing of /repo is imported or executed. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()}
f = os.path.join(HERE, "DESIGN.md")
d = open(f).read()
a, b = "<!-- properties: written by tools/gen_manifest.py -->\n", "<!-- end of properties -->\n"
x = ""
for i in ids:
    x += f"### {i} {titles[i]}\n\n"
    if i in SPECS:
        s = SPECS[i]
        x += f"*{s.get('technique')}.* {s['explanation']}"
        if s["assumptions"]:
            x += "\n\nTrusted: " + " ".join(s["assumptions"])
    else:
        x += "Not applicable. " + NOT_APPLICABLE.get(i, "Not claimed yet.")
    x += "\n\n"
if a in d:
    d = d[: d.index(a) + len(a)] + "\n" + x + d[d.index(b) :]
    open(f, "w").write(d)
print(len(checks), "checks,", len(na), "not applicable")
