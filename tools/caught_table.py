#!/usr/bin/env python3
"""Development aid: print DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import glob, json, os
print("| planted bug | what it breaks | caught by (quick) |\n|---|---|---|")
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "/").strip(), d["property"]))
