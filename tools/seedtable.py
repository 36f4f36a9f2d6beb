"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"].replace("|", "/")))
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
head = "| change | property | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = re.compile(r"^(?!\|)", re.M).search(s, i).start()
open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows))
