#!/usr/bin/env python3
"""run.py <ID> [quick|thorough] [--replay FILE] [--keep] [--only SCENARIO]

Compiles checks/<ID>*.cpp together with the sources in /repo/src, explores every
execution within the bounds of the tier and judges each against the reference
model in the harness.  Exit 0: held everywhere; 1: VIOLATION; 2: no answer."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
BASE = ["-std=c++17", "-w", "-g0", "-pipe", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
        "-Wl,--wrap=malloc", "-fmax-errors=5", "-I", V + "/mc", "-I", REPO + "/src"]

def known(pid):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if a and a[0] in ("quick", "thorough"):
        tier = a.pop(0)
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    only = a[a.index("--only") + 1] if "--only" in a else None
    t0 = time.time()
    srcs = sorted(glob.glob(f"{V}/checks/{pid}*.cpp"))
    if not srcs:
        print("no harness for", pid); return 2
    os.makedirs(V + "/build", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid + ".", dir=V + "/build")
    try:
        return go(pid, tier, replay, only, srcs, tmp, t0)
    finally:
        if "--keep" not in a:
            shutil.rmtree(tmp, ignore_errors=True)

def compile_all(srcs, tmp):
    def start(cmd, log):
        return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT)
    # libstdc++ debug mode (iterator validity, strict weak orders, sorted ranges) except in harnesses marked "// debug: off"
    dbg = [] if any(re.search(r"^// debug: off", open(s).read(6000), re.M) for s in srcs) and not os.environ.get("MC_DBG") else ["-D_GLIBCXX_DEBUG"]
    eng = [CXX, "-std=c++17", "-O1", "-w"] + dbg + ["-I", V + "/mc", "-c", V + "/mc/engine.cpp", "-o", tmp + "/engine.o"]
    jobs = [("engine", start(eng, tmp + "/engine.log"), eng)]
    parts, todo = {}, [(s, os.path.basename(s)[:-4]) for s in srcs]
    for s in srcs:  # "// with: a b": checks/parts/a.cpp and b.cpp are compiled beside the harness and linked to it
        m = re.search(r"^// with: (.*)$", open(s).read(6000), re.M)
        parts[os.path.basename(s)[:-4]] = m.group(1).split() if m else []
    todo += [(f"{V}/checks/parts/{p}.cpp", p) for n in parts for p in parts[n]]
    for s, n in todo:
        head = open(s).read(6000)
        m = re.search(r"^// flags: (.*)$", head, re.M)
        fl = m.group(1).split() if m else ["-O1"]
        cmd = [CXX] + BASE + dbg + fl + ["-include", V + "/mc/mc.hpp", "-c", s, "-o", f"{tmp}/{n}.o"]
        jobs.append((n, start(cmd, f"{tmp}/{n}.log"), cmd))
    bad = []
    for n, p, cmd in jobs:
        if p.wait() != 0:
            # once more, alone: a compiler that was starved of memory is not a verdict
            if subprocess.call(cmd, stdout=open(f"{tmp}/{n}.log", "w"), stderr=subprocess.STDOUT) != 0:
                bad.append(n)
    for n in parts:
        if n in bad or set(parts[n]) & set(bad): continue
        r = subprocess.run([CXX, "-Wl,--wrap=malloc", f"{tmp}/{n}.o"] + [f"{tmp}/{p}.o" for p in parts[n]] + [f"{tmp}/engine.o", "-o", f"{tmp}/{n}"], capture_output=True, text=True)
        if r.returncode != 0:
            open(f"{tmp}/{n}.log", "w").write(r.stderr); bad.append(n)
    return bad

def go(pid, tier, replay, only, srcs, tmp, t0):
    bad = compile_all(srcs, tmp)
    tc = time.time() - t0
    if bad:
        for n in bad:
            log = open(f"{tmp}/{n}.log").read()
            sys.stderr.write(log[:6000])
            if n != "engine" and re.search(re.escape(REPO) + r"/src/\S+:\d+:\d+: error:|required from", log):
                p = f"{V}/replays/{pid}.compile.txt"
                open(p, "w").write(f"property: {pid}\nThe public API exercised by {n} no longer compiles:\n" + log)
                evidence(pid, tier, t0, tc, [], 1, srcs)
                print(f"VIOLATION property={pid} replay={p}")
                return 1
        print("compile failed:", bad)
        return 2
    if replay:
        part = re.search(r"^part: (\S+)$", open(replay).read(), re.M).group(1)
        return subprocess.call([f"{tmp}/{part}", "--dir", tmp, "--replay", replay])
    kn = known(pid)
    kf = tmp + "/known"
    open(kf, "w").write("".join(k + "\n" for k, _ in kn))
    res, rc = [], 0
    seen = set()
    for s in srcs:
        n = os.path.basename(s)[:-4]
        out = f"{tmp}/{n}.json"
        cmd = [f"{tmp}/{n}", "--dir", tmp, "--out", out, "--known", kf] + (["--thorough"] if tier == "thorough" else []) + (["--only", only] if only else [])
        r = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, errors="replace")
        if not os.path.exists(out):
            print(f"{n}: explorer ended with {r.returncode} {r.stderr[-500:]}"); rc = max(rc, 2); continue
        d = json.load(open(out)); d["part"] = n; res.append(d)
        if d["broken"] or (d["unconfirmed"] and not d["violation"]):
            print(f"{n}: {d['broken']} unconfirmed: {d['unconfirmed']}"); rc = max(rc, 2)
        for k in d["known"]:
            for m, desc in kn:
                if m in k: seen.add((m, desc))
    for m, desc in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {desc}")
    viols = [d for d in res if d["violation"]]
    for d in viols:
        v = d["violation"]
        p = f"{V}/replays/{pid}.{d['part']}.txt"
        with open(p, "w") as f:
            f.write(f"property: {pid}\npart: {d['part']}\ntier: {tier}\nscenario: {v['scenario']}\nchoices: {' '.join(map(str, v['choices']))}\n"
                    + (f"history-units: {' '.join(map(str, v['units']))}\n" if v["units"] else "") +
                    f"reproduce: ./run.sh {pid} {tier} --replay {p}\n\n{v['msg']}\n\n{v['text']}\n")
        print(f"{d['part']}/{v['scenario']}: {v['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={p}")
    evidence(pid, tier, t0, tc, res, len(viols), srcs)
    ex = sum(d["executions"] for d in res)
    print(f"{pid} {tier}: {ex} executions, {sum(d['states'] for d in res)} states, {sum(d['transitions'] for d in res)} transitions, compile {tc:.1f}s, total {time.time()-t0:.1f}s")
    if os.environ.get("MC_PER"):
        for d in res: print(d["part"], d["per"])
    if viols: return 1
    if rc == 0 and (ex == 0 or any(v == 0 for d in res for v in d["per"].values())):
        print("a scenario explored nothing:", [d["per"] for d in res]); return 2
    return rc

def evidence(pid, tier, t0, tc, res, nv, srcs):
    bounds, assum = [], []
    for s in srcs:
        for l in open(s):
            if l.startswith("//# "): bounds.append(l[4:].strip())
            if l.startswith("//! "): assum.append(l[4:].strip())
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": sum(d["states"] for d in res), "transitions": sum(d["transitions"] for d in res),
              "traces_validated_against_impl": sum(d["executions"] for d in res),
              "answers_compared_with_model": sum(d["validated"] for d in res),
              "executions_pruned_as_outside_the_bound": sum(d["pruned"] for d in res),
              "executions_per_scenario": {f"{d['part']}.{k}": v for d in res for k, v in d["per"].items()},
              "exhaustive": nv == 0 and bool(res), "bounds": bounds,
              "compile_s": round(tc, 2),
              "samples": [s[:1200] for d in res for s in d["samples"]][:24]},
          "assumptions": assum, "wall_s": round(time.time() - t0, 2), "violations": nv}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)

sys.exit(main())
