#!/usr/bin/env python3
"""mkseed.py FILE: builds /verif/seeded/<id>/ from a Python description (ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)],
PKG, DEMO=Go test source with TestDemo) and confirms it: compiles, demo passes without and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
src = sys.argv[1]; ns = {}
exec(open(src).read(), ns)
d = "/verif/seeded/" + ns["ID"]
w = tempfile.mkdtemp(prefix="seedwt-")
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
def sh(c, cwd=w): return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
subprocess.run(["cp", "-a", "/repo/.", w])
try:
    for f, old, new in ns["EDITS"]:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) >= 1, (f, old)
        assert s.count(old) == 1, ("ambiguous", f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go.txt", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exits 0 when the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
export HOME="$t/home" GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-$(HOME=/root go env GOMODCACHE)}"
mkdir -p "$HOME"
echo "{\\"Replace\\":{\\"$PWD/%s/zz_seed_demo_test.go\\":\\"$t/demo_test.go\\"}}" > "$t/overlay.json"
timeout 280 go test -count=1 -vet=off -overlay "$t/overlay.json" -run '^TestSeedDemo$' %s ./%s
''' % (ns["PKG"], ns.get("FLAGS", ""), ns["PKG"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    b = sh("go build ./... ")
    if b.returncode: print("BUILD FAILS", b.stderr)
    r1 = sh(d + "/demo.sh")
    r0 = subprocess.run(d + "/demo.sh", cwd="/repo", env=env, capture_output=True, text=True)
    print(ns["ID"], "unchanged rc", r0.returncode, "patched rc", r1.returncode)
    if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-1500:])
    if not r1.returncode: print("NOT DEMONSTRATED", r1.stdout[-800:])
    if "build failed" in r1.stdout + r1.stderr: print("DEMO BUILD FAILED", r1.stdout, r1.stderr)
    pk = ns.get("TESTS", "./" + ns["EDITS"][0][0].rsplit("/", 1)[0])
    if pk:
        t = sh("go test -vet=off -count=1 " + pk)
        print("tests", pk, "rc", t.returncode, "" if t.returncode == 0 else t.stdout[-800:])
finally:
    shutil.rmtree(w)
