#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- planted -->", "| planted bug | needs | breaks | caught by |", "|----|----|----|----|"]
missed = set(open(os.path.join(V, "lib", "missed.txt")).read().split()) if os.path.exists(os.path.join(V, "lib", "missed.txt")) else set()
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['needs']} | {m['what_it_breaks']} | {'not caught' if b in missed else m['property']} |".replace("\n", " "))
rows.append("<!-- /planted -->")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
new = "\n".join(rows)
t = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: new, t, flags=re.S) if "<!-- planted -->" in t else t.replace("TABLE\n", new + "\n")
open(p, "w").write(t)
