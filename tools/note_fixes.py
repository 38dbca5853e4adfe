#!/usr/bin/env python3
"""note_fixes.py <property>: adds "fixed:" lines for commits of /repo that known-findings.txt does not name yet."""
import subprocess, sys, os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt")
kf = open(F).read()
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
out = ""
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", base + "..HEAD"], text=True).splitlines():
    h, t = l.split(" ", 1)
    if h not in kf and t.startswith("fix: "):
        out += f"fixed: property={sys.argv[1]} {h} before: not ({t[5:]})\n"
print(out, end="")
open(F, "a").write(out)
