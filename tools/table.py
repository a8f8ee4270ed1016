"""The list of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"* `{os.path.basename(os.path.dirname(f))}` ({m['property']}): {m['what_it_breaks']} Needs {m['needs']}.")
rows.append("<!-- /seeded -->")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->|^SEEDEDTABLE$", lambda _m: "\n".join(rows), s, count=1, flags=re.S | re.M)
open(p, "w").write(s)
