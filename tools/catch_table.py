"""Development tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught.json beside it holds {id: [checks]})."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{V}/tools/caught.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    c = caught.get(i, [d["property"]])
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', '/')} | {', '.join(c) or 'missed'} |")
p = f"{V}/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- table -->"), s.index("<!-- /table -->")
open(p, "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
