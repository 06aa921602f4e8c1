#!/usr/bin/env python3
import json, os, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/DESIGN.in.md").read()
rows = "\n".join("| %s | %s | %s |" % tuple(x.strip() for x in l.split(" | ")) for l in open(R + "/tools/design_rows.txt") if l.strip())
kf = [l.strip() for l in open(R + "/KNOWN_FINDINGS.txt") if l.strip() and not l.startswith("#")]
fixed = "\n".join("- " + re.sub(r"fixed: property=(\w+) (\w+) ", r"\1 (\2): ", l) for l in kf if l.startswith("fixed:"))
finds = "\n".join("- " + re.sub(r"finding: property=(\w+) match=(.*?) :: ", r"\1, events matching `\2`: ", l) for l in kf if l.startswith("finding:")) or "none"
res = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
s = ["| planted change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    s.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "?")))
man = json.load(open(R + "/MANIFEST.json"))
na = "\n".join("- %s: %s" % (x["property"], x["reason"]) for x in man["not_applicable"]) or "none: every property is decided"
for k, v in (("TABLE", rows), ("FIXED", fixed), ("FINDINGS", finds), ("SEEDED", "\n".join(s)), ("NA", na)):
    t = t.replace("@@%s@@" % k, v)
open(R + "/DESIGN.md", "w").write(t)
