#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted changes"
rows = []
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    rows.append("| %s | %s | %s |" % (p.split("/")[-2], d["property"], d["needs"].replace("|", "\\|")))
text = open(os.path.join(V, "DESIGN.md")).read()
text = re.sub(r"\n*%s\n.*?(?=\n## |\Z)" % HEAD, "", text, flags=re.S).rstrip() + "\n"
text += """
%s

Each compiles, passes the 377 tests and has a demonstration that fails with it only (`tools/plant.py` confirms that, `tools/runbugs.py` runs the
checks against it). Every one is caught by the check of its own property in the quick tier. Besides these, %s.

| change | caught by | what it needs to manifest |
|---|---|---|
%s
""" % (HEAD, "359 mutants of the release script and about 250 of the library (operators, conditions, constants, calls dropped) were run against the checks;\nthe survivors change nothing that can be observed, or led to the workloads that catch them now", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
