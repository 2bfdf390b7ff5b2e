"""The table of the planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json
import pathlib
import re
V = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property, whose quick check catches it | needs |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} |")
p = V / "DESIGN.md"
s = p.read_text()
table = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "(table in progress)" in s:
    s = s.replace("(table in progress)", table)
else:
    s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: table, s, flags=re.S)
p.write_text(s)
