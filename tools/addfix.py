"""append a 'fixed' entry: addfix.py PROP COMMIT what"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p)); k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4])); json.dump(k, open(p, "w"), indent=1)
