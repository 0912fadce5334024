"""fills lib/design.tmpl: writes DESIGN.md with the current list of unclaimed properties and planted bugs"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V+"/MANIFEST.json")); rows = []
for i in sorted(os.listdir(V+"/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s (%s; needs %s) | %s | %s |" % (i, d["what_it_breaks"], d["needs"], d["property"], "check "+d["property"]))
t = open(V+"/lib/design.tmpl").read().replace("@NA@", "\n".join("* %s: %s" % (d["property"], d["reason"]) for d in m["not_applicable"]) or "All properties are claimed.").replace("@SEED@", "\n".join(rows))
open(V+"/DESIGN.md", "w").write(t)
