"""Prints the table of planted bugs (DESIGN.md section 5)."""
import glob, json, os
AFTER = {"c16-address-order", "c22-factor-level", "c25-rename-case", "c31-many-dashes"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | needs | breaks | caught by |\n|---|---|---|---|")
for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, n = json.load(open(p)), os.path.basename(os.path.dirname(p))
    print("| %s | %s | %s | %s%s |" % (n, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), m["property"], " (after)" if n in AFTER else ""))
