"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os
base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for d in sorted(glob.glob(base + "/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                                   m["what_it_breaks"], m["needs"]))
