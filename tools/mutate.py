#!/usr/bin/env python3
"""mutate.py --files GLOB[,GLOB] --n N [--workers W] [--seed S] [--scale X] --out OUT.jsonl

Measures how sensitive the checks are: makes N random small changes (one at a
time) to the sources, compiles the changed file with the flags of the checks,
links it with the unchanged rest and runs the check binaries of the groups that
exercise the file until one of them reports a failure.  One JSON line per
change: file, line, before, after and the property that caught it, or null.
Nothing under the repository is written; scratch files live in --tmp.
"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402
from groups import GROUPS, PROPERTY_GROUP  # noqa: E402

SKIP = re.compile(r"^\s*(//|/\*|\*|#|case |default|break|ERR_|WARN_|PLOG|std::cout|RUNTIME_PLOG|FAIL_|CRASH_|DEV_)|ClassDB|print_|PLOG_|MLPPUtilities utils?;|_bind_methods|BIND_|memdelete|~|emit_changed|lock\(\)|unlock\(\)")


def ops(line):
    """the possible small changes of one line"""
    out = []

    def sub(pat, rep):
        for m in re.finditer(pat, line):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            if r is not None:
                out.append(line[: m.start()] + r + line[m.end():])

    sub(r"(?<=[\w\)\]] )\+(?= [\w\(])", "-")
    sub(r"(?<=[\w\)\]] )-(?= [\w\(])", "+")
    sub(r"(?<=[\w\)\]] )\*(?= [\w\(])", "/")
    sub(r"(?<=[\w\)\]] )/(?= [\w\(])", "*")
    sub(r"(?<= )\+=(?= )", "-=")
    sub(r"(?<= )-=(?= )", "+=")
    sub(r"(?<= )\*=(?= )", "/=")
    sub(r"(?<= )<(?= )", "<=")
    sub(r"(?<= )<=(?= )", "<")
    sub(r"(?<= )>(?= )", ">=")
    sub(r"(?<= )>=(?= )", ">")
    sub(r"(?<= )==(?= )", "!=")
    sub(r"(?<= )!=(?= )", "==")
    sub(r"(?<= )&&(?= )", "||")
    sub(r"(?<= )\|\|(?= )", "&&")
    sub(r"(?<![\w.])(\d+)(?![\w.xX])", lambda m: str(int(m.group(1)) + 1) if len(m.group(1)) < 5 else None)
    sub(r"(?<![\w.])([1-9]\d*)(?![\w.xX])", lambda m: str(int(m.group(1)) - 1) if len(m.group(1)) < 5 else None)
    sub(r"(?<![\w.])(\d+\.\d+)(?![\w.])", lambda m: str(float(m.group(1)) * 1.5 + (0.5 if float(m.group(1)) == 0 else 0)))
    sub(r"\bi\b(?=[\],])", "j" if re.search(r"\bj\b", line) else lambda m: None)
    sub(r"\bj\b(?=[\],])", "i" if re.search(r"\bi\b", line) else lambda m: None)
    sub(r"\btrue\b", "false")
    sub(r"\bfalse\b", "true")
    sub(r"\bMath::(sin|cos|exp|log|sqrt|abs|floor|ceil|tanh)\b", lambda m: "Math::" + {"sin": "cos", "cos": "sin", "exp": "abs", "log": "abs", "sqrt": "abs", "abs": "floor", "floor": "ceil", "ceil": "floor", "tanh": "sin"}[m.group(1)])
    sub(r"\bMIN\(", "MAX(")
    sub(r"\bMAX\(", "MIN(")
    sub(r"(?<=if \()(.+)(?=\) \{\s*$)", r"!(\1)")
    if re.match(r"^\t+[\w>\-.\[\]\(\), *+/:<]+;\s*$", line) and not re.match(r"^\t+(return|[\w:<>]+[ *&]+\w+( =.*)?;|else|\w+ \w+\(.*\);)", line):
        out.append(re.match(r"^\t+", line).group(0) + ";\n")
    m = re.match(r"^(\t+return )(-?)([^;]+);$", line.rstrip("\n"))
    if m and re.search(r"[\w\)]$", m.group(3)) and m.group(3) not in ("true", "false", "OK"):
        pass
    return [o for o in dict.fromkeys(out) if o != line]


def candidates(path):
    ls = open(path, errors="replace").read().split("\n")
    depth_fn = False
    out = []
    comment = False
    for i, l in enumerate(ls):
        if comment:
            comment = "*/" not in l
            continue
        if l.lstrip().startswith("/*") and "*/" not in l:
            comment = True
            continue
        if re.match(r"^[\w:<>&*~ ]+\(.*\{\s*$", l) or re.match(r"^[\w:<>&*~].*\)( const)? \{\s*$", l):
            depth_fn = True
        if l.startswith("}"):
            depth_fn = False
        inclass = path.endswith(".h") and l.startswith("\t\t") and not re.match(r"\s*(virtual|static|friend|typedef|using|template|enum)", l)
        if not (depth_fn or inclass) or SKIP.search(l) or l.rstrip().endswith("\\"):
            continue
        for o in ops(l):
            out.append((i, l, o))
    return out


def relevant(path):
    """groups whose harness or properties use what the file defines"""
    rel = os.path.relpath(path, check.REPO)
    gs = []
    if rel.startswith("platform/"):
        base = [g for g, G in GROUPS.items() if G.get("san_platform")]
        return base
    name = os.path.basename(path).rsplit(".", 1)[0]
    for g, G in GROUPS.items():
        if G.get("san_platform"):
            continue
        if rel.startswith("core/") and name not in ("data",):
            if path.endswith(".cpp") and not any(os.path.samefile(path, s) for p in G["sources"] for s in glob.glob(os.path.join(check.REPO, p))):
                continue
        txt = "".join(open(os.path.join(V, "harness", h)).read() for h in G["harness"])
        inc = re.findall(r'#include "([^"]+)"', txt)
        cls = "MLPP" + "".join(w.capitalize() for w in name.split("_"))
        if any(i.endswith(name + ".h") for i in inc) or cls.lower() in txt.lower() or rel.startswith("core/"):
            gs.append(g)
    return gs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", required=True)
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--groups", default="")
    ap.add_argument("--lines", default="")
    ap.add_argument("--skip", default="", help="JSON lines of earlier runs; their changes are not repeated")
    ap.add_argument("--retry", default="", help="JSON lines of an earlier run: its uncaught changes are tried again instead of new ones")
    ap.add_argument("--tmp", default="/tmp/w/mut")
    ap.add_argument("--jobs", type=int, default=3, help="compilers at a time for one change of a header")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    files = sorted({f for g in a.files.split(",") for f in glob.glob(os.path.join(check.REPO, g))})
    cand = []
    lo, hi = (int(x) for x in a.lines.split("-")) if a.lines else (0, 1 << 30)
    for f in files:
        cand += [(f, *c) for c in candidates(f) if lo <= c[0] + 1 <= hi]
    done = set()
    for s in a.skip.split(","):
        if s and os.path.exists(s):
            for l in open(s):
                d = json.loads(l)
                done.add((d["file"], d["before"], d["after"]))
    cand = [c for c in cand if (os.path.relpath(c[0], check.REPO), c[2].strip(), c[3].strip()) not in done]
    # pick lines evenly, then one change per line
    by_line = {}
    for c in cand:
        by_line.setdefault((c[0], c[1]), []).append(c)
    keys = sorted(by_line)
    rng.shuffle(keys)
    picked = [rng.choice(by_line[k]) for k in keys[: a.n]]
    if a.retry:
        old = [json.loads(l) for l in open(a.retry)]
        want = {(d["file"], d["before"], d["after"]) for d in old if not d["caught"]}
        seen = set()
        picked = []
        for c in cand:
            k = (os.path.relpath(c[0], check.REPO), c[2].strip(), c[3].strip())
            if k in want and (k, c[1]) not in seen and any(abs(c[1] + 1 - d["line"]) < 60 and d["before"] == k[1] for d in old):
                seen.add((k, c[1]))
                picked.append(c)
    groups = a.groups.split(",") if a.groups else sorted({g for f in files for g in relevant(f)})
    check.locked_build(groups)
    hh = check.sh_hash(check.repo_headers())
    lock = threading.Lock()
    os.makedirs(a.tmp, exist_ok=True)
    outf = open(a.out, "a")
    cache = {}

    def objs_of(g, san):
        # the unchanged objects of a group, by source
        with lock:
            if g not in cache:
                d = {}
                G = GROUPS[g]
                lib = sorted({s for p in G["sources"] for s in glob.glob(os.path.join(check.REPO, p))})
                vh = check.sh_hash(sorted(glob.glob(V + "/harness/*.h")))
                for src in lib:
                    fl = check.DEFS + ["-fno-exceptions", "-O1", "-g1"]
                    if "/platform/" not in src or G.get("san_platform"):
                        fl = fl + check.SAN
                    d[src] = (check.compile_one(src, fl, hh)[0], fl)
                hf = check.DEFS + ["-fexceptions", "-O1", "-g1"] + check.SAN
                for h in G["harness"]:
                    p = os.path.join(V, "harness", h)
                    d[p] = (check.compile_one(p, hf, hh + vh)[0], hf)
                d["vt"] = (check.compile_one(V + "/harness/vt.cpp", hf, vh)[0], hf)
                d["glue"] = (check.compile_one(V + "/harness/glue.cpp", hf, hh + vh)[0], hf)
                cache[g] = d
            return cache[g]

    def one(k, m):
        f, i, before, after = m
        rel = os.path.relpath(f, check.REPO)
        d = os.path.join(a.tmp, "w%d" % k)
        os.makedirs(d, exist_ok=True)
        rec = {"file": rel, "line": i + 1, "before": before.strip(), "after": after.strip()}
        ls = open(f, errors="surrogateescape").read().split("\n")
        ls[i] = after.rstrip("\n")
        # a changed copy that is found first on the include path
        root = os.path.join(d, "src")
        subprocess.run(["rm", "-rf", root])
        os.makedirs(os.path.join(root, os.path.dirname(rel)))
        open(os.path.join(root, rel), "w", errors="surrogateescape").write("\n".join(ls))
        gs = a.groups.split(",") if a.groups else relevant(f)
        rec["groups"] = gs
        caught = None
        why = ""
        built = {}
        for g in gs:
            o = objs_of(g, None)
            if f not in o and not f.endswith(".h"):
                continue
            use = dict((s, v[0]) for s, v in o.items())
            if f.endswith(".h"):
                # everything that is not the engine itself includes it: all of it is compiled anew
                for dd in ("core", "modules", "platform"):
                    for p in glob.glob(os.path.join(check.REPO, dd, "**", "*.[hi]*"), recursive=True):
                        q = os.path.join(root, os.path.relpath(p, check.REPO))
                        if not os.path.exists(q):
                            os.makedirs(os.path.dirname(q), exist_ok=True)
                            os.symlink(p, q)

                def comp(s):
                    if s == "vt":
                        return None
                    src = V + "/harness/glue.cpp" if s == "glue" else s
                    key = src + " ".join(o[s][1])
                    if key in built:
                        return built[key]
                    if src.startswith(check.REPO):
                        q = os.path.join(root, os.path.relpath(src, check.REPO))
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        if not os.path.exists(q):
                            subprocess.run(["cp", src, q])
                        src = q
                    ob = os.path.join(d, "h%d.o" % (abs(hash(key)) % 10**12))
                    r = subprocess.run(["g++", *o[s][1], "-I", root + "/platform/x11", "-I", root + "/platform", "-I", root, "-I", V + "/harness", "-c", src, "-o", ob],
                                       cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    built[key] = None if r.returncode else ob
                    return built[key]

                with cf.ThreadPoolExecutor(max_workers=a.jobs) as ex2:
                    for s, ob in zip(list(use), ex2.map(comp, list(use))):
                        if s != "vt":
                            use[s] = ob
                if None in use.values():
                    rec["caught"] = "nocompile"
                    break
            key = "" if f.endswith(".h") else " ".join(o[f][1])
            fl = [] if f.endswith(".h") else o[f][1]
            if not f.endswith(".h") and key not in built:
                ob = os.path.join(d, "m%d.o" % len(built))
                r = subprocess.run(["g++", *fl, "-iquote", os.path.dirname(f), "-I", check.REPO + "/platform/x11", "-I", check.REPO + "/platform", "-I", check.REPO, "-c", os.path.join(root, rel), "-o", ob],
                                   cwd=check.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    rec["caught"] = "nocompile"
                    break
                built[key] = ob
            if not f.endswith(".h"):
                use[f] = built[key]
            b = os.path.join(d, "bin")
            r = subprocess.run(["g++", *check.SAN, *use.values(), "-o", b, "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                rec["caught"] = "nocompile"
                break
            ids = [p for p in sorted(PROPERTY_GROUP) if PROPERTY_GROUP[p] == g]
            res = os.path.join(d, "res.json")
            for p in ids:
                if os.path.exists(res):
                    os.unlink(res)
                sc = os.path.join(d, "scratch")
                os.makedirs(sc, exist_ok=True)
                try:
                    subprocess.run([b, "--id", p, "--tier", "quick", "--seed", "1", "--jobs", "2", "--budget", "100", "--scale", a.scale, "--out", res],
                                   cwd=sc, env=dict(os.environ, VT_SCRATCH=sc), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                    R = json.load(open(res))
                except Exception as e:
                    caught, why = p, "no result: %r" % e
                    break
                for s in R["subs"]:
                    if s.get("fail") and not s["witness"]:
                        caught, why = p, s["name"] + ": " + s["fail"]["msg"][:150]
                        break
                if caught:
                    break
            if caught:
                break
        if "caught" not in rec:
            rec["caught"] = caught
            rec["why"] = why
        with lock:
            outf.write(json.dumps(rec) + "\n")
            outf.flush()
        subprocess.run("rm -rf %s; rm -f %s/h*.o" % (root, d), shell=True)

    free = list(range(a.workers))

    def go(m):
        with lock:
            k = free.pop()
        try:
            one(k, m)
        finally:
            with lock:
                free.append(k)

    with cf.ThreadPoolExecutor(max_workers=a.workers) as ex:
        list(ex.map(go, picked))


if __name__ == "__main__":
    main()
