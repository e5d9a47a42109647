"""DESIGN.md = DESIGN.head.md + table of the planted bugs"""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
out = open(d + "/DESIGN.head.md").read()
out += "| change | property | needs | breaks |\n|---|---|---|---|\n"
for i in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(d + "/seeded/%s/meta.json" % i))
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"])
out += open(d + "/DESIGN.tail.md").read()
open(d + "/DESIGN.md", "w").write(out)
