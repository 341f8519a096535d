#!/usr/bin/env python3
"""Systematic small faults: mutate.py FILE[,FILE] [-j N] [-n MAX] [-o OUT] [-k SEED]
Applies each mutation operator at each place of src/FILE in a scratch copy and runs
the checks whose properties are anchored there; prints the mutants no check notices."""
import json, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "), (r"/= ", "*= "),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])0\.0(?!\w)", "1.0"), (r"(?<![\w.])1\.0(?!\w)", "2.0"), (r"(?<![\w.])2\.0(?!\w)", "3.0"), (r"(?<![\w.])0\.5(?!\w)", "0.25"),
       (r"\.rows\(\)", ".cols()"), (r"\.cols\(\)", ".rows()"), (r"\.row\(", ".col("), (r"\.col\(", ".row("), (r"colwise", "rowwise"), (r"rowwise", "colwise"),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"minCoeff", "maxCoeff"), (r"maxCoeff", "minCoeff"), (r"topRows", "bottomRows"), (r"bottomRows", "topRows"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|", "&&"), (r"\.transpose\(\)", ""), (r"\.abs\(\)", ""), (r"std::abs", ""), (r"std::sqrt", ""), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"!(?=[\w(])", ""),
       (r"\bmean\(\)", "sum()"), (r"\bsum\(\)", "mean()"), (r"\bdouble (?=\w+ [={])", "float "), (r"\bDataType (?=\w+ [={])", "float "), (r"static_cast<double>", "static_cast<float>"), (r"static_cast<DataType>", "static_cast<float>"), (r"\bMatType (?=\w+ = )", "Eigen::MatrixXf "),
       (r"\+\+(?=\w)", "--"), (r"(?<=\w)\+\+", "--")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using|namespace|typename|class |err_msg|<<|std::cout|throw)|std::cout|err_msg|<<\s*\"")
def mutants(path):
    L = open(path).read().split("\n"); out = []; com = False
    for i, l in enumerate(L):
        if "/*" in l: com = True
        if com:
            if "*/" in l: com = False
            continue
        if SKIP.search(l): continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                out.append((i, new))
        if re.match(r"^\s+[\w:>.()\-\[\], *&]+(\s*[+\-*/]?=\s*[^=].*|\(.*\));\s*$", code) and not re.match(r"^\s*(return|const|auto|std::size_t|double|int|bool|DataType|MatType|VecType|IdxVecType|std::\w+<.*> \w+)\b.*", code):
            out.append((i, re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s*(else )?if \(.*\) \{\s*$", code):
            out.append((i, re.sub(r"if \((.*)\) \{", r"if (true || (\1)) {", code)))
            out.append((i, re.sub(r"if \((.*)\) \{", r"if (false && (\1)) {", code)))
    return L, out
def props(f):
    ids = []
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        if any(("src/" + f) == x or ("src/" + f).startswith(x.rstrip("/") + "/") and x.count("/") > 1 for x in d["anchors"]["files"]) and d["id"] not in ("C39", "C40", "C41", "C42"): ids.append(d["id"])
    return ids
def one(job):
    f, i, new, L, ids = job
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp/s")
    try:
        shutil.copytree("/repo/src", w + "/src")
        M = list(L); M[i] = new; open(f"{w}/src/{f}", "w").write("\n".join(M))
        for pid in ids:
            try: r = subprocess.run(["./run.py", pid, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, errors="replace", timeout=400)
            except subprocess.TimeoutExpired: return (f, i, L[i], new, "timeout " + pid)
            if r.returncode == 1: return (f, i, L[i], new, ("stillborn" if "compile.txt" in r.stdout else "killed") + " " + pid)
            if r.returncode == 2: return (f, i, L[i], new, "noanswer " + pid + r.stdout[-200:])
        return (f, i, L[i], new, "SURVIVED")
    finally: shutil.rmtree(w, ignore_errors=True)
def main():
    a = sys.argv[1:]; opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    files = a[0].split(","); N = int(opt("-n", 60)); out = open(opt("-o", "/dev/stdout"), "w"); rnd = random.Random(int(opt("-k", 1)))
    jobs = []
    for f in files:
        L, ms = mutants(f"/repo/src/{f}"); ids = opt("-p", None); ids = ids.split(",") if ids else props(f)
        rnd.shuffle(ms); jobs += [(f, i, n, L, ids) for i, n in ms[:N]]
        print(f, len(ms), "mutants,", ids, file=sys.stderr)
    with cf.ThreadPoolExecutor(int(opt("-j", 7))) as ex:
        for r in ex.map(one, jobs):
            if r[4].startswith("killed") or r[4].startswith("stillborn"): out.write(f"{r[4]}\n")
            else: out.write(f"{r[4]} {r[0]}:{r[1]+1}\n    {r[2].strip()}\n    {r[3].strip()}\n")
            out.flush()
main()
