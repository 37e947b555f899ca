"""mkseed.py ID PROP 'needs' 'breaks' FILE < spec: stdin = python: OLD, NEW strings (list of edits) and DEMO text"""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
g = {}; exec(sys.stdin.read(), g)
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
saved = {}
for f, old, new in g["EDITS"]:
  p = "/repo/" + f; s = open(p).read(); saved.setdefault(p, s)
  assert s.count(old) == 1, (f, s.count(old), old)
  open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
for p, s in saved.items(): open(p, "w").write(s)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"]).strip()
open(d + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\n' + g.get("SH", 'exec /opt/venv/bin/python "$here/demo.py"\n'))
if "DEMO" in g: open(d + "/demo.py", "w").write('import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "Code"))\n' + g["DEMO"])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
