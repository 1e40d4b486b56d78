"""writes the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m.get('caught_by', m['property'])} | {m['needs']} |")
p = f"{R}/DESIGN.md"
s = open(p).read()
head = "| bug | caught by | needs |\n|---|---|---|\n"
i = s.index(head)
open(p, "w").write(s[:i] + head + "\n".join(rows) + "\n")
