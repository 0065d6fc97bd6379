"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | what it needs to manifest | what it breaks |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    print("| `%s` | %s | %s |" % (os.path.basename(d), m["needs"], m["what_it_breaks"]))
