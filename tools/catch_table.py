"""Refreshes the table of planted bugs in DESIGN.md."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| id | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m.get('caught_by', m['property'])} | {m['needs']} |")
s = open("DESIGN.md").read()
a, b = "<!-- table -->\n", "<!-- /table -->\n"
if "CATCHTABLE\n" in s:
    s = s.replace("CATCHTABLE\n", a + b)
i, j = s.index(a) + len(a), s.index(b)
open("DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
