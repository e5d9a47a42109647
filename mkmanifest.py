"""writes MANIFEST.json from properties.jsonl and the existing checks (run by hand)"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {}
for line in open(here + "/TECHNIQUES.txt"):
    if line.strip() and not line.startswith("#"):
        a, b, c = line.rstrip("\n").split(" | ")
        T[a.strip()] = (b.strip(), c.strip())
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(here + "/checks/%s.py" % p.lower()) and p in T:
        checks.append(dict(property=p, quick_cmd="./run.sh " + p, thorough_cmd="VERIF_TIER=thorough ./run.sh " + p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="exploration",
                           level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./run.sh --selftest", checks=checks, not_applicable=na,
               notes="No hooks in /repo: monitors attach at run time (wrapped functions, instrumented builds of the "
                     "Cython modules made from /repo's working tree in a scratch directory)."),
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
