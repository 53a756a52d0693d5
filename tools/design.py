#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: not applicable properties, the table of planted bugs (tools/seedmap.txt), number of quiet edits."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
P = {p["id"]: p for p in props.PROPS}
na = "\n".join("* **%s** %s: %s" % (i, P[i]["title"], r) for i, r in props.NA)
caught = {}
for l in open(os.path.join(here, "seedmap.txt")):
    m = re.match(r"(\S+) \[\w+\] caught by: ([^|]*)", l)
    if m: caught[m.group(1)] = m.group(2).strip()
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), caught.get(i, "?")))
s = open(os.path.join(root, "DESIGN.md")).read()
def put(s, k, v):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: "<!-- %s -->%s<!-- /%s -->" % (k, v, k), s, flags=re.S)
s = put(s, "na", "\n" + na + "\n"); s = put(s, "seeds", "\n" + "\n".join(rows) + "\n"); s = put(s, "nquiet", str(len(glob.glob(os.path.join(root, "quiet", "*.diff")))))
open(os.path.join(root, "DESIGN.md"), "w").write(s)
