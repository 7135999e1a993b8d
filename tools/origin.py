#!/usr/bin/env python3
"""Planted bugs that change no line of the original repository (by hand)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = open(os.path.join(V, "seeded", b, "patch.diff")).read()
    f, old, hits, adds = None, set(), 0, 0
    for line in p.splitlines():
        m = re.match(r"\+\+\+ b/(.*)", line)
        if m:
            f = m.group(1)
            r = subprocess.run(["git", "-C", "/repo", "show", "708836b:" + f], capture_output=True, text=True)
            old = {q.strip() for q in r.stdout.splitlines()}
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
            hits += line[1:].strip() in old
        elif line.startswith("+") and not line.startswith("+++"):
            adds += 1
    if not hits:
        print(b, "removes no original line;", adds, "added")
