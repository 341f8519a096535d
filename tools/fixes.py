#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix: commits in /repo (property ids below)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = []
for l in open(V + "/tools/fixes.map"):
    if l.strip(): pid, key = l.split(None, 1); MAP.append((key.strip(), pid))
out = [l for l in open(V + "/known_findings.txt") if not l.startswith("fixed:")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    pid = [p for k, p in MAP if k in s]
    if not pid: print("no property for", l); continue
    for p in sorted(set(pid)): out.append(f"fixed: property={p} {h} {s[5:]}\n")
open(V + "/known_findings.txt", "w").writelines(out)
