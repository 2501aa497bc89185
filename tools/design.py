#!/usr/bin/env python3
"""Composes DESIGN.md from design_head.md, the property table, the evidence of the last runs, known-findings.txt and design_tail.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    out.append("%s\n\n" % p["statement"])
    out.append("*Method:* %s. %s\n\n" % (man[i]["technique"], man[i]["level_note"]))
    out.append("*Why tests cannot settle it:* %s\n\n" % p["why_tests_cant"])
    f = V + "/evidence/%s.json" % i
    if os.path.exists(f):
        e = json.load(open(f))
        out.append("| family | explored (bounds) | executions | real calls | comparisons |\n|---|---|---|---|---|\n")
        for k, v in e["coverage"]["families"].items():
            out.append("| %s | %s | %d | %d | %d |\n" % (k, v["bounds"].replace("|", "\\|"), v["executions"], v["real_calls"], v["comparisons"]))
        out.append("\n*Quick tier:* %.0f s. *Assumptions:* %s.\n\n" % (e["wall_s"], "; ".join(e["assumptions"])))
kf = open(V + "/known-findings.txt").read().splitlines()
out.append("## Genuine defects found\n\n### Repaired (one `fix:` commit each in /repo)\n\n")
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("* %s `%s` %s\n" % m.groups())
out.append("\n### Known findings (recorded, not repaired)\n\n")
for l in kf:
    if l.startswith("known:"):
        out.append("* %s\n" % l[7:].replace("property=", ""))
out.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
