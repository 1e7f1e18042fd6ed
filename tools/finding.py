"""finding.py PROP COMMIT WHAT   record a repaired defect in known_findings.json"""
import json, sys
import os; f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"); d = json.load(open(f))
p, c, w = sys.argv[1:4]
d["findings"].append(dict(property=p, key=c, fixed=c, what="fixed: property=%s %s %s" % (p, c, w)))
json.dump(d, open(f, "w"), indent=1)
