#!/usr/bin/env python3
"""dev helper: rewrite the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
t = "| property | change | needs |\n|----------|--------|-------|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"\| property \| change \| needs \|\n(\|.*\n)+", lambda _: t, s)
s = s.replace("Debug got probes (P21), Size its own property (P31).", "Debug got probes (P21), Size its own property (P31);\na clone of an IterRc takes over from the original in probes of its own (P10, iter-rc-clone-without-hold); loops that never\nend are reported (P11, parent-hang-in-forest).")
open(V + "/DESIGN.md", "w").write(s)
