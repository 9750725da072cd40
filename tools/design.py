#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from seeded/*/meta.json and known_findings.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = "clone-shares-captured-field same-bytes-same-image stop-my-others-by-current-sprite message-queue-of-three list-of-255 random-letter-memo next-costume-by-name".split()
k = json.load(open(f"{root}/known_findings.json"))
def line(x): return " ".join(str(x).split()).replace("|", "\\|")
seeds = ["| change | property and check | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    seeds.append(f"| {d}{'*' if d in MISSED else ''} | {m['property']} | {line(m['what_it_breaks'])} | {line(m['needs'])} |")
fixes = ["* " + line(x if isinstance(x, str) else json.dumps(x)).removeprefix("fixed: property=") for x in k["fixed"]]
known = [f"* {f['property']} `{f['key']}`: {line(f['what'])}" for f in k["findings"]]
s = open(f"{root}/DESIGN.md").read()
for key, rows in (("SEEDTABLE", seeds), ("FIXES", fixes), ("KNOWN", known)):
    body = "\n".join(rows)
    s = re.sub(f"<!-- {key} -->.*?<!-- /{key} -->", lambda _: f"<!-- {key} -->\n{body}\n<!-- /{key} -->", s, flags=re.S)
open(f"{root}/DESIGN.md", "w").write(s)
