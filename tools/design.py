#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i}: {m['what_it_breaks']} | {m['property']} | {'the quick check of ' + m['property'] if not m.get('missed') else 'missed: ' + m['missed']} |")
s = open(V + "/DESIGN.md").read()
s = s.replace("@SEEDS@", "<!--seeds-->\n<!--/seeds-->")
s = re.sub(r"\|---\|---\|---\|\n(<!--seeds-->.*?<!--/seeds-->)", "|---|---|---|\n<!--seeds-->", s, flags=re.S)
s = re.sub(r"\|---\|---\|---\|\n(?:\| .*\n)*(?:<!--seeds-->\n?)?", lambda _: "|---|---|---|\n" + "\n".join(rows) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
