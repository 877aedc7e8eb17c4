"""Write the `fixed:` lines of known_findings.txt from /repo's history (developer tool).

Run by hand after a fix; the checks never write that file.
"""
import re
import subprocess
import sys

FIXED = dict(line.split(" | ", 1) for line in open("fixed.txt").read().splitlines() if line)
log = subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b88654e..HEAD"], text=True
)
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    s = s[len("fix: ") :]
    if s not in FIXED:
        print("no property for:", s)
        continue
    props, what = FIXED[s].split(" | ")
    for p in props.split(","):
        out.append("fixed: property=%s %s %s" % (p.strip(), h, what))
text = open("known_findings.txt").read()
text = re.sub(r"(?m)^fixed:.*\n?", "", text).rstrip() + "\n" + "\n".join(out) + "\n"
open("known_findings.txt", "w").write(text)
