"""print the table of planted bugs for DESIGN.md"""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | property | needs |\n|---|---|---|")
for b in sorted(os.listdir(D)):
    m = json.load(open(D + "/" + b + "/meta.json"))
    print("| %s | %s | %s |" % (b, m["property"], m["needs"]))
