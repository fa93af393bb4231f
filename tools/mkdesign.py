#!/usr/bin/env python3
"""Appends the generated tables (findings, planted bugs) to DESIGN.md: replaces what stands between the markers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
d = json.load(open(os.path.join(V, "known_findings.json")))
L = d if isinstance(d, list) else next(v for v in d.values() if isinstance(v, list))
find = "\n".join("* %s %s: `%s` %s" % (e["id"], e["property"], e.get("commit", "-"), re.sub(r"^fixed: property=\S+ \S+ ", "", e["line"])) for e in L)
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/"), j.get("caught_by", "check " + j["property"])))
for tag, t in (("FINDINGS", find), ("SEEDED", "\n".join(rows))):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, t, tag), s, flags=re.S)
open(p, "w").write(s)
