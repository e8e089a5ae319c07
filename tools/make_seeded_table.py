"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2].split("_", 1)[1])
rows = ["| check | planted bugs it catches (`seeded/<property>_<name>`) |", "|-------|------|"]
rows += ["| %s | %s |" % (p, ", ".join(n)) for p, n in sorted(by.items())]
text = open(here + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- end planted -->\n"
i, j = text.index(a) + len(a), text.index(b)
open(here + "/DESIGN.md", "w").write(text[:i] + "\n".join(rows) + "\n" + text[j:])
