#!/usr/bin/env python3
"""Brings the generated parts of DESIGN.md up to date: the Space and Bound of every property, and the tables of planted bugs, fixes and findings."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/bin")
from props import PROPS
p = root + "/DESIGN.md"
s = open(p).read()
def section(m):
    id, body = m.group(1), m.group(0)
    body = re.sub(r"\*Space\*: .*", lambda _: "*Space*: " + PROPS[id]["rule"] + ".", body)
    return re.sub(r"\*Bound\*: .*", lambda _: "*Bound*: " + PROPS[id]["note"], body)
s = re.sub(r"### (C\d\d) .*?(?=\n### |\n## |\Z)", section, s, flags=re.S)
rows = ["| change | property | what it breaks | what it needs |", "|---|---|---|---|"]
d = root + "/seeded"
for b in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(f"{d}/{b}/meta.json"))
    c = lambda x: x.replace("|", "\\|")
    rows.append(f"| {b} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
fixed, found = [], []
for l in open(root + "/KNOWN_FINDINGS"):
    l = l.strip()
    if l.startswith("fixed:"):
        a = re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups()
        fixed.append(f"* {a[0]}, {a[1]}: {a[2]}")
    elif l.startswith("finding:"):
        a = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)", l).groups()
        found.append(f"* {a[0]}: {a[2]}")
def block(name, lines):
    global s
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    if a in s:
        s = s[:s.index(a) + len(a)] + "\n" + "\n".join(lines) + "\n" + s[s.index(b):]
block("planted", rows); block("fixed", fixed); block("found", found)
open(p, "w").write(s)
