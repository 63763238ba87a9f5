#!/usr/bin/env python3
"""Rewrite the 'fixed:' lines of known_findings.txt from /repo's fix commits and the area -> property table below."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s", "1399dee..HEAD"], text=True).splitlines()
T = {}
for l in open(os.path.join(V, "tools", "fixmap.txt")):
    if l.strip():
        k, v = l.split(None, 1)
        T[v.strip()] = k
kn = [l for l in open(os.path.join(V, "known_findings.txt"))] if os.path.exists(os.path.join(V, "known_findings.txt")) else []
kn = [l for l in kn if not l.startswith("fixed:")]
missing = []
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    f.writelines(kn)
    for l in log:
        h, s = l.split("\t")
        s = s[len("fix: "):]
        if s not in T:
            missing.append(s)
            continue
        f.write("fixed: property=%s %s %s\n" % (T[s], h, s))
print("unmapped:", *missing, sep="\n")
