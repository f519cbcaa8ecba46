#!/usr/bin/env python3
"""Table of the planted bugs of DESIGN.md, from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["needs"].rstrip("."), m["what_it_breaks"].rstrip(".")))
rows.sort()
t = ["| check that catches it | planted bug | needs | breaks |", "|---|---|---|---|"]
t += ["| {} | `{}` | {} | {} |".format(*[x.replace("|", "/") for x in r]) for r in rows]
p = root / "DESIGN.md"
s = p.read_text()
body = "<!-- seeded -->\n" + "\n".join(t) + "\n<!-- /seeded -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", body)
else:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: body, s, flags=re.S)
p.write_text(s)
print(len(rows), "planted bugs")
