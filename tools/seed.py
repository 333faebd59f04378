#!/usr/bin/env python3
"""seed.py DEFS.py : builds /verif/seeded/<id>/ from definitions and keeps only those that meet the planted-bug rules.
DEFS.py defines BUGS = [dict(id, prop, needs, what, edits=[(file, old, new[, count])], demo="C++ body of main", inc=..., libs=...)]."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not.  Runs in the repository's root after a build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$PWD
for s in src/*.cpp %(mods)s; do
  g++ -std=c++14 -w -O1 -I"$r/include" -I"$r/modules/sparsesolver/include" -I"$r/modules/partition/include" -I/usr/include/suitesparse -c "$r/$s" -o "$t/$(basename "$s").o" &
done
g++ -std=c++14 -w -O1 -I"$r/include" -I"$r/modules/sparsesolver/include" -I"$r/modules/partition/include" -I/usr/include/suitesparse -c "$d/demo.cpp" -o "$t/demo_main.o" &
wait
g++ "$t"/*.o -o "$t/demo" -lumfpack -lamd -lmetis -llapack -lblas || exit 9
cd "$t" && timeout 60 ./demo
'''
PDEMO = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not.  Runs in the repository's root; ranks are threads, hypre is the stand-in beside this file.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$PWD
I="-std=c++14 -w -O1 -pthread -I$d -I$r/include -I$r/modules/parlinalgcpp/include -I/usr/include/suitesparse"
for s in "$r"/src/*.cpp "$r"/modules/parlinalgcpp/src/*.cpp "$d"/*.cpp; do
  g++ $I -c "$s" -o "$t/$(basename "$s").o" &
done
wait
g++ -pthread "$t"/*.o -o "$t/demo" -lumfpack -lamd -lmetis -llapack -lblas || exit 9
cd "$t" && timeout 60 ./demo
'''
def run(cmd, cwd=None, t=400):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = w + "/repo"
        run(["cp", "-a", "/repo", repo])
        run("git checkout -- . && git clean -fdq", cwd=repo)
        for e in b["edits"]:
            f, old, new = e[:3]
            s = open(repo + "/" + f).read()
            n = s.count(old)
            if n != (e[3] if len(e) > 3 else 1):
                print(b["id"], "EDIT MATCHES", n, f, old[:60]); raise SystemExit
            open(repo + "/" + f, "w").write(s.replace(old, new))
        patch = run("git diff", cwd=repo).stdout
        out = SEED + "/" + b["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(PDEMO if b.get("par") else DEMO % {"mods": b.get("mods", "")})
        if b.get("par"):
            H = "/verif/harness/hypre/"
            for f in os.listdir(H):
                if f != "ops_par.cpp":
                    shutil.copy(H + f, out)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.cpp", "w").write(b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(out + "/meta.json", "w"), indent=1)
        clean = run([out + "/demo.sh"], cwd="/repo")
        bad = run([out + "/demo.sh"], cwd=repo)
        # the stable tests, on the patched tree put in place of /repo (under a lock file so that nothing else builds meanwhile)
        run("git apply " + out + "/patch.diff", cwd="/repo")
        try:
            bl = run(["bash", "/opt/vp/build.sh"], cwd="/repo")
            ts = run(["bash", "/opt/vp/test.sh", w + "/o.json"], cwd="/repo")
            o = json.load(open(w + "/o.json"))
            npass = len(o["passed"])
        finally:
            run("git checkout -- .", cwd="/repo")
        ok = clean.returncode == 0 and bad.returncode != 0 and npass == 17 and not o["failed"]
        print(b["id"], "clean", clean.returncode, "bad", bad.returncode, "tests", npass, o["failed"], "OK" if ok else "REJECTED")
        if not ok:
            print(clean.stdout[-600:], bad.stdout[-600:], bl.stdout[-600:] if npass == 0 else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)
run(["bash", "/opt/vp/build.sh"], cwd="/repo")
