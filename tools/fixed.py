"""Writes the fixed: lines of known_findings.txt from the fix: commits of /repo.
Usage: fixed.py; PROP maps a piece of the subject to the property."""
import subprocess, re
PROP = [
 ("comment before `]`", "C01"), ("comments before the closing bracket of an index", "C01"), ("line continuation when a line is broken", "C01"), ("tuple without brackets", "C01"),
 ("comment after a one-line block", "C02"), ("pending end-of-line comments", "C03"), ("closing bracket of an if or for header", "C03"),
 ("indent all end-of-line comments of the last", "C02"), ("parentheses around a number", "C06"), ("commented aliased symbols", "C02"),
 ("indent docstrings deeper", "C02"), ("print a comprehension in multi-line", "C02"), ("end-of-line comments of a statement", "C02"),
 ("comments before an attribute name", "C02"), ("end-of-line comments after an opening bracket", "C02"), ("before a duplicate string", "C03"),
 ("comments of merged load", "C03"), ("line continuations inside an index", "C03"), ("reorder call arguments before", "C02"),
 ("function without parameters", "C03"), ("parts of concatenated labels", "C08"), ("overwrite the byte following", "C04"),
 ("backslash before a non-Latin-1", "C04"), ("only consists of a line continuation", "C04"), ("reject signs in", "C05"),
 ("group not and conditional", "C06"), ("treat &=", "C36"),
]
import json, os
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed_map.json")
if os.path.exists(extra):
    PROP += [tuple(x) for x in json.load(open(extra))]
HEAD = """# One line per genuine defect. "known:" entries are printed as KNOWN-FINDING and do
# not fail the check; "fixed:" entries were repaired in /repo and suppress nothing.
"""
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
known = [l for l in open(p) if l.startswith("known:")]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [b for a, b in PROP if a in s]
    if not m:
        print("UNMAPPED", l)
        continue
    out.append("fixed: property=%s %s %s\n" % (m[0], h, s[5:]))
open(p, "w").write(HEAD + "".join(known) + "".join(out))
print(len(out), "fixed", len(known), "known")
