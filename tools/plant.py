#!/usr/bin/env python3
"""Plant one bug: plant.py ID < json {property, needs, what_it_breaks, edits:[[file, old, new]], demo: C++ body of main}

Makes seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json} in a scratch copy mounted over /repo in a private
mount namespace, and confirms: demo passes on the unchanged tree, fails with the change, the stable tests pass, and
which checks report it. --verify ID... re-confirms existing ones."""
import json, os, shutil, subprocess, sys

V = os.environ.get("VT_PLANT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right; run from the repository's root after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -fno-access-control -fno-rtti -std=gnu++14 -w -O1 -DTESTS_ENABLED -DNO_SAFE_CAST -DUSING_SFW -DDEBUG_ENABLED -DNDEBUG -DX11_ENABLED \\
	-DUNIX_ENABLED -D_FILE_OFFSET_BITS=64 -I platform/x11 -I platform -I . "$d/demo.cpp" \\
	libmlpp.x11.opt.debug.64.a platform/*.o -o "$t/demo" -lpthread -ldl || exit 98
cd "$t" && timeout 120 ./demo
'''
HEAD = '''#include "sfw.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
%s
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("not as it should be: %%s\\n", #x); bad = 1; } } while (0)
#define NEAR(a, b, t) do { double a_ = (a), b_ = (b); if (!(std::fabs(a_ - b_) <= (t))) { printf("%%s = %%g, should be %%g\\n", #a, a_, b_); bad = 1; } } while (0)
static Ref<MLPPVector> V(const std::vector<double> &v) {
	Ref<MLPPVector> r;
	r.instance();
	for (size_t i = 0; i < v.size(); i++) {
		r->push_back(v[i]);
	}
	return r;
}
static Ref<MLPPMatrix> M(const std::vector<std::vector<double>> &v) {
	Ref<MLPPMatrix> r;
	r.instance();
	r->resize(Size2i(v.empty() ? 0 : v[0].size(), v.size()));
	for (size_t i = 0; i < v.size(); i++) {
		for (size_t j = 0; j < v[i].size(); j++) {
			r->element_set(i, j, v[i][j]);
		}
	}
	return r;
}
%s
static void run() {
%s
}
int main() {
	SFWCore::setup();
	run();
	SFWCore::cleanup();
	return bad;
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def confirm(id, checks):
    d = f"{V}/seeded/{id}"
    w = f"/tmp/seed/{id}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    # a demonstration lies elsewhere when it counts
    shutil.rmtree(w + "_demo", ignore_errors=True)
    os.makedirs(w + "_demo")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(f"{d}/{f}", w + "_demo")
    script = f'''mount --bind {w} /repo; cd /repo
bash /opt/vp/build.sh >/tmp/seed/{id}.b0 2>&1 || {{ echo BASEBUILD-FAIL; exit; }}
bash {w}_demo/demo.sh >/tmp/seed/{id}.d0 2>&1; echo demo-unchanged $?
git apply {d}/patch.diff || {{ echo APPLY-FAIL; exit; }}
bash /opt/vp/build.sh >/tmp/seed/{id}.b1 2>&1 || {{ echo BUILD-FAIL; tail -5 /tmp/seed/{id}.b1; exit; }}
bash {w}_demo/demo.sh >/tmp/seed/{id}.d1 2>&1; echo demo-patched $?; head -3 /tmp/seed/{id}.d1
cd {V}; for c in {" ".join(checks)}; do python3 check.py $c > /tmp/seed/{id}.c 2>&1; echo check $c $?; grep -a VIOLATION /tmp/seed/{id}.c; done
cd /repo; bash /opt/vp/test.sh /tmp/seed/{id}.json >/tmp/seed/{id}.t 2>&1
python3 -c "import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed/{id}.json'))['passed']);print('tests', 'ok' if b<=p else 'FAIL %s'%sorted(b-p))"
'''
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout
    print(f"== {id}\n{out}", flush=True)
    shutil.rmtree(w); shutil.rmtree(w + "_demo")
    return "demo-unchanged 0" in out and "demo-patched 0" not in out and "demo-patched 98" not in out and "tests ok" in out


def plant(id, property, needs, what_it_breaks, edits, demo, inc="", pre="", checks=None, flags=""):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seed/%s_src" % id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f"git -C /repo archive HEAD | tar x -C {w}; cd {w}; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x")
    for e in edits:
        f, a, b = e[:3]
        t = open(f"{w}/{f}", newline="").read()
        k = t.count(a)
        nth = e[3] if len(e) > 3 else None
        assert k == 1 or nth is not None, (f, a, k)
        if nth is None:
            t = t.replace(a, b)
        elif isinstance(nth, str):  # the first one after that text
            assert t.count(nth) == 1, (f, nth, t.count(nth))
            i = t.index(a, t.index(nth))
            t = t[:i] + b + t[i + len(a):]
        else:
            i = -1
            for _ in range(nth + 1):
                i = t.index(a, i + 1)
            t = t[:i] + b + t[i + len(a):]
        open(f"{w}/{f}", "w", newline="").write(t)
    open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(DEMO_SH.replace(" -O1 ", " -O1 %s " % flags if flags else " -O1 "))
    open(d + "/demo.cpp", "w").write(HEAD % ("\n".join('#include "%s"' % i for i in inc.split()), pre, demo.strip("\n")))
    json.dump(dict(property=property, needs=needs, what_it_breaks=what_it_breaks), open(d + "/meta.json", "w"), indent=1)
    return confirm(id, checks or [property])


if __name__ == "__main__":
    for id in sys.argv[1:]:
        m = json.load(open(f"{V}/seeded/{id}/meta.json"))
        if not confirm(id, [m["property"]]):
            print("NOT CONFIRMED", id)
