#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SUB] | --setup | --replay FILE

Builds the harness of the group property ID belongs to from /repo's working
tree (objects are cached by content under /verif/build), runs it, and reports:
  VIOLATION property=ID replay=PATH     (exit 1)
  KNOWN-FINDING: property=ID ...        (listed in known_findings.json, exit 0)
and rewrites evidence/ID.json.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from groups import GROUPS, MEMORY_CASES, MEMORY_GROUPS, PROPERTY_GROUP, QUICK_DEFAULT, QUICK_SCALE  # noqa: E402
from spec import SPEC  # noqa: E402

RULES = {p["id"]: "In this property " + p["rule"] + "." for p in SPEC}

DEFS = ("-fno-rtti -std=gnu++14 -pipe -w -DTESTS_ENABLED -DNO_SAFE_CAST -DUSING_SFW "
        "-DDEBUG_ENABLED -DNDEBUG -DX11_ENABLED -DUNIX_ENABLED -D_FILE_OFFSET_BITS=64").split()
SAN = ["-fsanitize=address", "-fsanitize=bounds,null,integer-divide-by-zero,return,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]


def sh_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def repo_headers():
    out = []
    for d in ("core", "modules", "platform"):
        for ext in ("*.h", "*.inc", "*.hpp"):
            out += glob.glob(os.path.join(REPO, d, "**", ext), recursive=True)
    return sorted(set(out))


def compile_one(src, flags, hdr_hash, extra=()):
    h = hashlib.sha256()
    h.update(" ".join(flags).encode())
    h.update(hdr_hash.encode())
    for p in (src, *extra):
        with open(p, "rb") as f:
            h.update(f.read())
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:40] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, 0
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", *flags, "-I", REPO + "/platform/x11", "-I", REPO + "/platform", "-I", REPO,
                        "-I", VERIF + "/harness", "-c", src, "-o", tmp], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("check: compiling %s failed" % src)
    os.rename(tmp, obj)
    return obj, 1


def build(groups):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    hdrs = repo_headers()
    hh = sh_hash(hdrs)
    vh = sorted(glob.glob(VERIF + "/harness/*.h"))
    vhh = sh_hash(vh)
    jobs = {}
    per_group = {}
    for g in groups:
        G = GROUPS[g]
        want = []
        pre = ["-DVT_SCHED", "-include", VERIF + "/harness/vtsched.h"] if G.get("sched") else []
        pkey = vhh if pre else ""
        def add(src, flags, hkey):
            key = (src, " ".join(flags))
            jobs[key] = (src, flags, hkey)
            want.append(key)
        lib = []
        for pat in G["sources"]:
            m = sorted(glob.glob(os.path.join(REPO, pat)))
            lib += m
        for src in sorted(set(lib)):
            flags = DEFS + ["-fno-exceptions", "-O1", "-g1"]
            if src.endswith("/3rd_stb.cpp"):
                pass
            big = "/platform/" in src
            if G.get("tsan"):
                flags = flags + TSAN
            elif not big or G.get("san_platform"):
                flags = flags + SAN
            add(src, flags + pre, hh + pkey)
        san = TSAN if G.get("tsan") else SAN
        hflags = DEFS + ["-fexceptions", "-O1", "-g1"] + san
        for src in G["harness"]:
            add(os.path.join(VERIF, "harness", src), hflags + pre, hh + vhh)
        add(VERIF + "/harness/vt.cpp", hflags, vhh)
        add(VERIF + "/harness/glue.cpp", hflags + pre, hh + vhh)
        per_group[g] = want
    order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][0]))
    objs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = {k: ex.submit(compile_one, *v) for k, v in order}
        for k, f in futs.items():
            objs[k] = f.result()[0]
    bins = {}
    for g in groups:
        ol = [objs[k] for k in dict.fromkeys(per_group[g])]
        h = hashlib.sha256("\n".join(sorted(ol)).encode()).hexdigest()[:24]
        b = os.path.join(BUILD, "bin", g + "-" + h)
        if not os.path.exists(b):
            for old in glob.glob(os.path.join(BUILD, "bin", g + "-*")):
                os.unlink(old)
            tmp = b + ".tmp%d" % os.getpid()
            r = subprocess.run(["g++", *(TSAN if GROUPS[g].get("tsan") else SAN), *ol, "-o", tmp, "-lpthread", "-ldl"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-6000:])
                raise SystemExit("check: linking %s failed" % g)
            os.rename(tmp, b)
        bins[g] = b
    prune()
    return bins


def prune(limit=1500 * 1024 * 1024):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(BUILD + "/obj/*.o")]
    tot = sum(f[1] for f in fs)
    for m, sz, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= sz


def locked_build(groups):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build(groups)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run_binary(b, pid, tier, seed, budget, only, scale, memory):
    out = os.path.join(BUILD, "result-%s-%d.json" % (pid, os.getpid()))
    cmd = [b, "--tier", tier, "--seed", str(seed), "--jobs", str(os.cpu_count() or 8), "--budget", str(budget), "--out", out]
    if memory:
        cmd += ["--memory", "--cases", str(int(MEMORY_CASES[tier] * float(scale or 1)))]
    else:
        cmd += ["--id", pid]
        if not scale and tier == "quick":
            scale = QUICK_SCALE.get(pid, QUICK_DEFAULT)
        if scale:
            cmd += ["--scale", str(scale)]
    if only:
        cmd += ["--only", only]
    scratch = os.path.join(BUILD, "scratch-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    r = subprocess.run(cmd, cwd=scratch, env=dict(os.environ, VT_SCRATCH=scratch), stdout=subprocess.DEVNULL)
    subprocess.run(["rm", "-rf", scratch])
    if not os.path.exists(out):
        if memory and only:
            return {"subs": [], "samples": [], "evals": 0, "distinct": 0}
        raise SystemExit("check: the harness produced no result (exit %d)" % r.returncode)
    res = json.load(open(out))
    os.unlink(out)
    return res


def run(pid, tier, only=None, seed=None, scale=None):
    t0 = time.time()
    g = PROPERTY_GROUP[pid]
    groups = MEMORY_GROUPS if g == "all" else [g]
    bins = locked_build(groups)
    seed = int(os.environ.get("VERIF_SEED", "1") if seed is None else seed)
    total = 200 if tier == "quick" else float(os.environ.get("VT_THOROUGH_S", "3000"))
    res = {"subs": [], "samples": [], "evals": 0, "distinct": 0}
    for g in groups:
        if g != groups[0] and sum(1 for s in res["subs"] if s.get("fail")) >= 3:
            break  # enough to look at
        budget = total if len(groups) == 1 else max(5.0, (total * 1.5 - (time.time() - t0)) / 3) if tier == "quick" else total / len(groups)
        r = run_binary(bins[g], pid, tier, seed, budget, only, scale, len(groups) > 1)
        for s in r["subs"]:
            s["group"] = g
        res["subs"] += r["subs"]
        res["samples"] += r["samples"][:40 if len(groups) == 1 else 4]
        res["evals"] += r["evals"]
        res["distinct"] += r["distinct"]
    known = [k for k in load_known() if k["property"] == pid]
    viol = 0
    kf = []
    for s in res["subs"]:
        f = s.get("fail")
        if not f:
            continue
        k = next((k for k in known if k["check"] == s["name"] and s["witness"]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            kf.append(k["what"])
            continue
        if f["kind"] == "killed" or (f["kind"] == "hang" and not f["reproduced"]):
            # a worker killed from outside (memory limit, overload) is not a verdict
            print("  note: %s/%s was interrupted (%s); not a verdict" % (pid, s["name"], f["msg"]))
            continue
        if len(groups) > 1 and not f["reproduced"]:
            print("  note: %s/%s grew once but not again; not a verdict" % (pid, s["name"]))
            continue
        if not f["reproduced"]:
            f["msg"] += " (did not reproduce on replay)"
        viol += 1
        d = os.path.join(VERIF, "replays", pid)
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, s["name"] + ".json")
        json.dump({"property": pid, "group": s["group"], "memory": len(groups) > 1, "check": s["name"], "kind": f["kind"], "message": f["msg"],
                   "input": f["input"], "choices": f["choices"], "seed": seed, "tier": tier,
                   "how": "python3 %s/check.py --replay %s" % (VERIF, rp)}, open(rp, "w"), indent=1)
        print("  %s/%s [%s]: %s" % (pid, s["name"], f["kind"], f["msg"]))
        if f["input"]:
            print("    input: " + f["input"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    wall = time.time() - t0
    samples = res["samples"][:40]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evals"],
            "distinct_nontrivial": res["distinct"],
            "rule": RULES.get(pid, "") + " Cases are drawn by the checks listed under per_check from a seeded choice "
                    "sequence; a case counts as non-trivial when the check marked it so (it reached the compared "
                    "behaviour with a non-degenerate input) and is distinct when its choice sequence differs from "
                    "every other counted case of the same check.",
            "samples": samples if samples else [{"check": s["name"], "evals": s["evals"]} for s in res["subs"]][:5],
            "per_check": {s["name"]: {"planned": s["planned"], "evaluated": s["evals"], "nontrivial": s["nontrivial"],
                                      "discarded": s["discards"]} for s in res["subs"]},
        },
        "assumptions": ["g++ 13 at -O1 with AddressSanitizer compiles the code as the release build does, up to undefined behaviour",
                        "real_t is float, as in the project's default configuration"],
        "wall_s": round(wall, 2), "violations": viol,
    }
    if kf:
        ev["coverage"]["known_findings"] = kf
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d cases (%d distinct non-trivial), %d violation(s), %.1f s" %
          (pid, tier, res["evals"], res["distinct"], viol, wall))
    thin = [s["name"] for s in res["subs"] if not s.get("fail") and not s["witness"] and s["evals"] < s["planned"] * 0.3 and len(groups) == 1]
    if thin:
        print("  note: time budget or discards cut short: " + ", ".join(thin))
    return 1 if viol else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        locked_build(sorted(GROUPS))
        return 0
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        b = locked_build([r["group"]])[r["group"]]
        cf_ = os.path.join(BUILD, "replay-%d.txt" % os.getpid())
        open(cf_, "w").write(" ".join(map(str, r["choices"])))
        scratch = os.path.join(BUILD, "scratch-%d" % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        rc = subprocess.run([b, *(["--memory"] if r.get("memory") else []), "--replay", r["check"], cf_], cwd=scratch, env=dict(os.environ, VT_SCRATCH=scratch)).returncode
        subprocess.run(["rm", "-rf", scratch])
        os.unlink(cf_)
        return rc
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    seed = None
    scale = None
    ids = []
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            i += 1
            tier = a[i]
        elif a[i] == "--only":
            i += 1
            only = a[i]
        elif a[i] == "--seed":
            i += 1
            seed = a[i]
        elif a[i] == "--scale":
            i += 1
            scale = a[i]
        else:
            ids.append(a[i])
        i += 1
    if ids == ["all"]:
        ids = sorted(PROPERTY_GROUP)
    rc = 0
    for p in ids:
        rc |= run(p, tier, only, seed, scale)
    return rc


if __name__ == "__main__":
    sys.exit(main())
