#!/usr/bin/env python3
"""DESIGN.md from design.in.md, design/<ID>.md and seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
t = open("design/head.md").read()
props = [json.loads(l) for l in open("properties.jsonl")]
claimed = {c["property"] for c in json.load(open("MANIFEST.json"))["checks"]}
sec = []
for p in props:
    f = f"design/{p['id']}.md"
    body = open(f).read().strip() if os.path.exists(f) else "No check yet."
    sec.append(f"### {p['id']} {p['title']}\n\n{body}\n")
rows = ["| planted bug | property | caught by (quick) | needs |", "|---|---|---|---|"]
caught = json.load(open("design/caught.json"))
for m in sorted(glob.glob("seeded/*/meta.json")):
    i = m.split("/")[1]
    d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {caught.get(i, '?')} | {d['needs']} |")
open("DESIGN.md", "w").write(t.replace("@@SECTIONS@@", "\n".join(sec)).replace("@@SEEDED@@", "\n".join(rows)))
