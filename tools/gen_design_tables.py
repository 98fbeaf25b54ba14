#!/usr/bin/env python3
"""Refresh the sizes and the table of planted bugs in DESIGN.md (run by hand after a full round of the checks)."""
import collections, glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open("DESIGN.md").read()


def big(n):
    return f"{n/1e6:.0f} M" if n >= 2e6 else f"{n/1e6:.1f} M" if n >= 1e5 else f"{n/1e3:.0f} k"


for f in sorted(glob.glob("evidence/C*.json")):
    d = json.load(open(f))
    c, p = d["coverage"], d["property"]
    if d["tier"] != "quick":
        continue
    size = f"{big(c['traces_validated_against_impl'])} executions, {big(c['transitions'])} steps, {d['wall_s']:.0f} s"
    s = re.sub(rf"^(\| {p} .*\|)[^|]*\|$", rf"\1 {size} |", s, flags=re.M)
by = collections.defaultdict(list)
for m in glob.glob("seeded/*/meta.json"):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = ["| check | catches |", "|---|---|"]
rows += [f"| {k} | {', '.join(sorted(v))} |" for k, v in sorted(by.items())]
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
