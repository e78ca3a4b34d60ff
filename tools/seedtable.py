"""Writes the table of planted bugs in DESIGN.md (a development tool: no check uses it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
for line in open(os.path.join(ROOT, "tools", "missed.txt")):
    if ":" in line:
        k, v = line.split(":", 1)
        MISSED[k.strip()] = v.strip()
rows = ["<!-- seeds -->", "| bug | property | what it breaks | first |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {'missed: ' + MISSED[s] if s in MISSED else 'caught'} |")
rows.append("<!-- /seeds -->")
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
if "SEEDTABLE" in text:
    text = text.replace("SEEDTABLE", "\n".join(rows))
else:
    a, b = text.index("<!-- seeds -->"), text.index("<!-- /seeds -->") + len("<!-- /seeds -->")
    text = text[:a] + "\n".join(rows) + text[b:]
open(path, "w").write(text)
print(len(rows) - 4, "bugs")
