"""Rewrite the generated tables of DESIGN.md (developer tool, run by hand)."""
import importlib
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
if sys.argv[1:] != ["tables"]:
    out = subprocess.check_output(["/opt/venv/bin/python", __file__, "tables"], cwd=ROOT, text=True)
    text = open(ROOT + "/DESIGN.md").read()
    head, rest = text.split("<!-- tables -->\n", 1)
    tail = rest.split("<!-- end of tables -->\n", 1)[1]
    open(ROOT + "/DESIGN.md", "w").write(head + "<!-- tables -->\n" + out + "<!-- end of tables -->\n" + tail)
    sys.exit()

sys.path.insert(0, ROOT)
from pbt import boot  # noqa

getattr(boot, "setup", lambda: None)()
mods = {"C%02d" % i: importlib.import_module("pbt.props.c%02d" % i) for i in range(1, 21)}
print("### Facets, rules and sizes\n")
print("| property | facet | counted as non-trivial | quick | thorough |\n|---|---|---|---|---|")
for pid, m in mods.items():
    for f in m.FACETS:
        q, t = f.quick, f.thorough
        if f.cases is not None:
            q, t = ["%d enumerated" % sum(1 for _ in f.cases(x)) for x in ("quick", "thorough")]
        print("| %s | %s | %s | %s | %s |" % (pid, f.name, f.rule.replace("|", "\\|"), q, t))
print("\n### Assumptions\n")
for pid, m in mods.items():
    print("* **%s** %s." % (pid, "; ".join(m.ASSUMPTIONS)))
print("\n### Repaired defects (fix commits in /repo)\n")
for line in open(ROOT + "/known_findings.txt"):
    k = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if k:
        print("* %s `%s` %s" % k.groups())
print("\n### Planted bugs\n")
print("First verdict: what the checks said before they were strengthened because of that bug.\n")
print("| bug | property | needs | first verdict | now |\n|---|---|---|---|---|")
res = {}
for line in open(ROOT + "/seeded_results.txt"):
    if line.strip():
        i, first, now = line.split()
        res[i] = first, now
for i in sorted(os.listdir(ROOT + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    r = res.get(i, ("?", "?"))
    print("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "\\|"), *r))
