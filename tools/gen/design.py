"""DESIGN.md = tools/gen/DESIGN.head.md + table of the planted bugs + list of the repaired defects"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open(V + "/tools/gen/DESIGN.head.md").read()
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
t = t.replace("@SEEDS@", "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows))
fix = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fix.append("- %s `%s` %s" % m.groups())
t = t.replace("@FIXED@", "\n".join(fix))
open(V + "/DESIGN.md", "w").write(t)
