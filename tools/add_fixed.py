"""usage: add_fixed.py 'fixed: property=... <commit> ...'"""
import json, sys
k = json.load(open("known_findings.json"))
for x in sys.argv[1:]:
    assert x.startswith("fixed: property=")
    if x not in k["fixed"]:
        k["fixed"].append(x)
json.dump(k, open("known_findings.json", "w"), indent=1)
