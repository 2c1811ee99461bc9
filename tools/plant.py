#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in a scratch copy of /repo: applies, builds, passes the stable tests, demo fails with it and passes without.
   As a module: seed(id, prop, edits, demo_sh, files, needs, breaks) writes /verif/seeded/<id>."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
CXX = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
F=""; for h in string flint/ulong_extras.h flint/fmpz.h flint/nmod_poly.h flint/nmod_poly_factor.h flint/fq_nmod_poly.h flint/fq_nmod_poly_factor.h boost/serialization/vector.hpp; do F="$F -include $h"; done
S=""; for f in %s; do S="$S src/$f"; done
g++ -std=gnu++17 -O1 -g -w $F %s -Isrc -I"$D" "$D/demo.cc" $S -o "$W/demo" %s -lboost_filesystem -lboost_program_options -lboost_system -lboost_serialization -lyaml-cpp -lflint -lgmp -pthread || exit 3
cd "$W" && timeout 120 ./demo
'''
def seed(id, prop, edits, demo, src=None, needs="", breaks="", flags="", libs="", sh_=None, extra={}):
    d = S + "/" + id; os.makedirs(d, exist_ok=True); w = "/tmp/seed-" + id; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh("git -C /repo archive HEAD | tar x -C " + w); sh("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", cwd=w)
    for f, a, b in edits:
        t = open(w + "/" + f).read(); assert t.count(a) == 1, (id, f, t.count(a), a); open(w + "/" + f, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout); shutil.rmtree(w)
    if demo: open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh_ if sh_ else CXX % (src, flags, libs)); os.chmod(d + "/demo.sh", 0o755)
    for k, x in extra.items(): open(d + "/" + k, "w").write(x)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
def confirm(id):
    d = S + "/" + id; w = "/tmp/plant-" + id; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/vp"); base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", []))) if 0 else None
    sh("git -C /repo archive HEAD | (mkdir -p %s/repo && tar x -C %s/repo)" % (w, w)); sh("git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x", cwd=w + "/repo")
    for f in ("common.sh", "build.sh", "test.sh", "results.py"):
        t = open("/opt/vp/" + f).read().replace("REPO=/repo", "REPO=%s/repo" % w).replace("/opt/vp/common.sh", w + "/vp/common.sh"); open(w + "/vp/" + f, "w").write(t)
    r = w + "/repo"; res = []
    def demo():
        e = "/tmp/demo-" + id; shutil.rmtree(e, ignore_errors=True); shutil.copytree(d, e)
        for f in os.listdir(e):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(e + "/" + f)
        o = sh("timeout 300 bash %s/demo.sh" % e, cwd=r); shutil.rmtree(e); return o
    o = sh("git apply %s/patch.diff" % d, cwd=r)
    if o.returncode: return "does not apply: " + o.stdout
    o = sh("bash %s/vp/build.sh" % w)
    if o.returncode: return "does not build: " + o.stdout[-1500:]
    sh("bash %s/vp/test.sh %s/t.json" % (w, w)); t = json.load(open(w + "/t.json")); o1 = demo()
    sh("git checkout -- .", cwd=r); o = sh("bash %s/vp/build.sh" % w); o2 = demo()
    shutil.rmtree(w)
    return "%s demo with bug: %s, without: %s  tests: %s %s" % ("OK" if o1.returncode and not o2.returncode and not t.get("failed") else "BAD", o1.returncode, o2.returncode, json.dumps(t)[:300] if t.get("failed") else "pass", (o1.stdout[-300:] + "|" + o2.stdout[-600:]) if not o1.returncode or o2.returncode else "")
if __name__ == "__main__":
    import concurrent.futures as cf
    ids = sys.argv[1:] or sorted(os.listdir(S))
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in zip(ids, ex.map(confirm, ids)): print(i, r, flush=True)
