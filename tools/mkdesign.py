"""DESIGN.md is design/text.md followed by the table of planted bugs."""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = open(H + "/design/text.md").read()
t = t.replace("@@SEEDED@@", "| id | caught by the check of | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows))
open(H + "/DESIGN.md", "w").write(t)
