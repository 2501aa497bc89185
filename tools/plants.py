#!/usr/bin/env python3
"""Regenerates seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} against /repo's HEAD from plants_spec.py."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append((id, prop, edits, needs, breaks, demo))


exec(open(os.path.join(V, "tools", "plants_spec.py")).read())
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
only = sys.argv[1:]
for id, prop, edits, needs, breaks, demo in PLANTS:
    if only and id not in only:
        continue
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    out = []
    files = {}
    for f, old, new in edits:
        t = files.get(f) or open("/repo/" + f).read()
        if t.count(old) != 1:
            print("!!", id, f, "matches", t.count(old))
            break
        files[f] = t.replace(old, new)
    else:
        for f in sorted(files):
            a = open("/repo/" + f).read().splitlines(True)
            b = files[f].splitlines(True)
            out += list(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write("".join(out))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
