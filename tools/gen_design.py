"""Fill the generated tables of DESIGN.md (fixes from known_findings.json, planted bugs from seeded/*)."""
import collections, glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = collections.defaultdict(list)
for f in json.load(open("known_findings.json"))["findings"]: d[f["property"]].append(f["what"] if f["status"] == "known" else f["what"].split(" ", 2)[2])
fx = "\n".join(f"* {k}: " + "; ".join("`" + w.split(" ", 1)[0] + "` " + w.split(" ", 1)[1] for w in d[k]) for k in sorted(d))
rows = ["| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
  j = json.load(open(m)); rows.append(f"| {m.split('/')[1]} | {j['property']} | {j['needs']} | {j.get('caught_by', j['property'])} |")
s = open("DESIGN.md").read()
for tag, txt in (("FIXES", fx), ("SEEDS", "\n".join(rows))):
  s = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{txt}\n<!-- /{tag} -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
