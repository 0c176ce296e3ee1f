#!/usr/bin/env python3
"""Fills the tables of planted bugs and repaired defects into DESIGN.md (between the markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
bugs = "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows)
fixed = "\n".join("* " + l.strip()[len("fixed: property="):] for l in open(os.path.join(here, "known-findings.txt")) if l.startswith("fixed:"))
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
for name, text in (("BUGS", bugs), ("FIXED", fixed)):
    s = re.sub(r"(<!-- %s -->\n).*?(\n<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(p, "w").write(s)
