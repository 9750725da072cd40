#!/usr/bin/env python3
"""BOUNDS.md from the checks' own lists of phases and the evidence files of the tiers given: tools/bounds.py DIR_QUICK [DIR_THOROUGH]"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for b in ("mc", "loomc", "netc"):
    out = subprocess.run([f"{root}/target/release/{b}", "--bounds"], capture_output=True, text=True).stdout
    for l in out.splitlines():
        i, t, p, d = json.loads(l); rows.setdefault(i, {}).setdefault(t, []).append((p, d))
def measured(d, i, tier):
    try: e = json.load(open(f"{d}/{i}.json"))
    except OSError: return {}
    if e["tier"] != tier: return {}
    return {b["phase"]: b for b in e["coverage"]["bounds"]}
dirs = {"quick": sys.argv[1] if len(sys.argv) > 1 else "", "thorough": sys.argv[2] if len(sys.argv) > 2 else ""}
with open(f"{root}/BOUNDS.md", "w") as f:
    f.write("# Bounds of every check\n\nMade by tools/bounds.py. Executions and seconds are those of one run on 8 cores; a phase listed under thorough only is not part of quick; where the bound differs, both are given.\n")
    for i in sorted(rows):
        f.write(f"\n## {i}\n\n")
        q, t = dict(rows[i].get("quick", [])), rows[i].get("thorough", [])
        mq, mt = measured(dirs["quick"], i, "quick"), measured(dirs["thorough"], i, "thorough")
        cell = lambda m, p: f" ({m[p]['executions']} executions, {m[p]['wall_s']:.1f} s)" if p in m and m[p]["completed"] else ""
        names = [p for p, _ in rows[i].get("quick", [])] + [p for p, _ in t if p not in q]
        t = dict(t)
        for p in names:
            if p in q and p in t and q[p] == t[p]: f.write(f"* **{p}**: {q[p]}{cell(mq, p)}\n")
            else:
                f.write(f"* **{p}**:")
                if p in q: f.write(f" quick: {q[p]}{cell(mq, p)}.")
                if p in t: f.write(f" thorough: {t[p]}{cell(mt, p)}.")
                f.write("\n")
