#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a Python file that defines SEEDS = [dict(id, property, needs, breaks,
edits=[(file, old, new)], files={name: text})]."""
import json, os, runpy, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    for n, t in s["files"].items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
