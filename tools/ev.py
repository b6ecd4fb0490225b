"""Print a summary of the evidence of one or more properties."""
import json
import sys
for p in sys.argv[1:]:
    e = json.load(open("/verif/evidence/%s.json" % p))
    for k, v in e["coverage"]["searches"].items():
        print(p, k, {a: b for a, b in v.items() if a != "rule"})
