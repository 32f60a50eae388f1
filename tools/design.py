#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose below, with the generators' rules and case counts taken from
the harness, the planted bugs from seeded/ and the repairs from known_findings.txt."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_table import CHECKS

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
rules = {}
for f in sorted(glob.glob(os.path.join(HERE, "harness/*/c*_test.go"))):
    src = open(f).read()
    for m in re.finditer(r'func (Test(C\d\d)_\w+)\(t \*testing\.T\) \{(.*?)(?=\nfunc |\Z)', src, re.S):
        r = re.search(r'vk\.Check\(t, "((?:[^"\\]|\\.)*)", (\d+), (\d+)', m.group(3))
        if not r:
            r2 = re.search(r'(\w+)\(t, "((?:[^"\\]|\\.)*)", (\d+), (\d+)', m.group(3))
            if r2:
                rules.setdefault(m.group(2), []).append((m.group(1), r2.group(2), int(r2.group(3)), int(r2.group(4))))
            continue
        rules.setdefault(m.group(2), []).append((m.group(1), r.group(1), int(r.group(2)), int(r.group(3))))
fixes, known = {}, {}
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
    if m:
        known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
bugs = {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(d))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TEXT = {}
cur = None
for line in open(os.path.join(HERE, "tools", "design_props.md")):
    m = re.match(r"## (C\d\d)\s*$", line)
    if m:
        cur = m.group(1)
        TEXT[cur] = ""
    elif cur:
        TEXT[cur] += line

out = [HEAD.rstrip(), ""]
for p in props:
    i = p["id"]
    out.append("## %s %s" % (i, p["title"]))
    out.append("")
    out.append(p["statement"])
    out.append("")
    out.append(TEXT.get(i, "(no notes)").strip())
    out.append("")
    if i not in CHECKS:
        out.append("Not claimed yet.")
        out.append("")
    for name, rule, q, t in sorted(set(rules.get(i, []))):
        out.append("- `%s` (%s, quick %d / thorough %d cases): %s." % (name, "harness/" + CHECKS[i]["pkg"] if i in CHECKS else "", q, t, rule))
    if bugs.get(i):
        out.append("- Planted bugs: " + "; ".join("`%s` (%s) — %s" % (b, m["what_it_breaks"], m.get("caught", "caught")) for b, m in bugs[i]) + ".")
    if fixes.get(i):
        out.append("- Repaired in /repo: " + "; ".join("%s %s" % x for x in fixes[i]) + ".")
    if known.get(i):
        out.append("- Known findings: " + "; ".join("%s %s" % x for x in known[i]) + ".")
    out.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines;", [p["id"] for p in props if p["id"] not in TEXT], "without notes;", [p["id"] for p in props if not rules.get(p["id"])], "without rules")
