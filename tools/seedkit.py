#!/usr/bin/env python3
"""Plant a bug: seedkit.py make DEFS.py [ID...]  |  try ID...  (scratch copies under /tmp/s)

DEFS.py calls bug(id, property, needs, breaks, [(file, old, new)...], demo source)."""
import json, os, re, subprocess, sys, shutil
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# exit 0: the behaviour demo.cpp describes is observed; 1: it is not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 -I "$PWD/src" -I /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo >"$t/out" 2>&1; rc=$?
tail -c 1500 "$t/out"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
want = set(sys.argv[3:]) if len(sys.argv) > 1 and sys.argv[1] == "make" else set()
def bug(id, prop, needs, breaks, edits, demo):
    if want and id not in want: return
    w = f"/tmp/s/mk.{os.getpid()}"
    sh(f"rm -rf {w}; mkdir -p {w}; git -C /repo archive HEAD | tar x -C {w}; cd {w} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x")
    for f, old, new in edits:
        p = f"{w}/src/{f}"; t = open(p).read()
        n = 1
        if isinstance(old, tuple): old, n = old          # n-th occurrence
        parts = t.split(old)
        if len(parts) <= n or (n == 1 and len(parts) != 2 and not old.endswith("#1")):
            if len(parts) <= n: print(id, "NOT FOUND", f, repr(old)); return
            print(id, "warning:", len(parts) - 1, "occurrences of", repr(old[:50]))
        t = old.join(parts[:n]) + new + old.join(parts[n:]); open(p, "w").write(t)
    d = f"{S}/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh(f"git -C {w} diff").stdout)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # are the removed lines those of the original repository?
    base = {}
    for f, _, _ in edits: base[f] = set(l.strip() for l in sh(f"git -C /repo show 751eb71:src/{f}").stdout.split("\n"))
    allb = set().union(*base.values())
    rem = [l[1:].strip() for l in open(d + "/patch.diff") if l.startswith("-") and not l.startswith("---")]
    mine = [l for l in rem if l and l not in allb]
    if mine or not [l for l in rem if l]: print(id, "NOT ORIGINAL:", mine or "adds only")
    sh(f"rm -rf {w}")
def tryone(id):
    d = f"{S}/{id}"; meta = json.load(open(d + "/meta.json")); w = f"/tmp/s/{id}"
    sh(f"rm -rf {w}; mkdir -p {w}; git -C /repo archive HEAD | tar x -C {w}; cd {w} && git init -q", cwd="/tmp")
    a = sh(f"cd {w} && git apply {d}/patch.diff"); 
    out = [id]
    if a.returncode: out.append("PATCH " + a.stderr)
    x = sh(f"bash {d}/demo.sh", cwd="/repo"); y = sh(f"bash {d}/demo.sh", cwd=w)
    out.append(f"demo clean={x.returncode} bug={y.returncode}")
    if x.returncode: out.append("CLEAN DEMO FAILS: " + (x.stdout + x.stderr)[-300:])
    if not y.returncode or y.returncode == 3: out.append("BUG DEMO?: " + (y.stdout + y.stderr)[-600:])
    out.append("bugged says: " + y.stdout.strip()[-160:])
    for p in [meta["property"]]:
        c = sh(f"VERIF_REPO={w} ./run.py {p} quick", cwd=os.path.dirname(S))
        out.append(f"check {p} -> {c.returncode} " + " | ".join(l[:230] for l in c.stdout.strip().split("\n")[-3:]))
        out.append("CAUGHT" if c.returncode == 1 else "MISSED")
    sh(f"rm -rf {w}")
    return "\n   ".join(out)
if __name__ == "__main__":
    if sys.argv[1] == "make": exec(open(sys.argv[2]).read())
    else:
        for i in sys.argv[2:]: print(tryone(i), flush=True)
