#!/usr/bin/env python3
"""seed.py SPEC: makes /verif/seeded/<id>/ from a spec file and verifies it in a scratch copy of /repo.

The spec is a Python file defining ID, PROP, FILE, EDITS=[(old,new)...], DEMO (a Go test
function TestSeeded in package sereal), NEEDS, BREAKS, NAME.
"""
import sys, os, subprocess, json, shutil, re
S = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec, full):
    ns = {}
    exec(open(spec).read(), ns)
    d = "/verif/seeded/" + ns["ID"]
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
    base = sh("git show 6020404:Go/sereal/" + ns["FILE"], cwd=S).stdout.split("\n")
    f = S + "/Go/sereal/" + ns["FILE"]
    s = open(f).read()
    for old, new in ns["EDITS"]:
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    open(f, "w").write(s)
    sh("gofmt -w " + f)
    diff = sh("git diff", cwd=S).stdout
    open(d + "/patch.diff", "w").write(diff)
    for l in diff.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
            print("NOT ORIGINAL:", l)
    open(d + "/seeded_test.go", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo after the build: fails if the property is broken
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/Go/sereal/zz_seeded_test.go\\":\\"$d/seeded_test.go\\"}}" > "$t/overlay.json"
cd Go/sereal && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s %s-run '^TestSeeded$' .
''' % ns.get("FLAGS", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    tmp = "/tmp/seeddemo"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for x in ("demo.sh", "seeded_test.go"): shutil.copy(d + "/" + x, tmp)
    b = sh("go build ./... && go vet -printf=false . 2>/dev/null; go test -vet=off -count=1 . ", cwd=S + "/Go/sereal")
    t = "tests " + ("ok" if b.returncode == 0 else "FAIL " + b.stdout[-600:] + b.stderr[-300:])
    bad = sh("bash %s/demo.sh" % tmp, cwd=S)
    sh("git checkout -q -- .", cwd=S)
    good = sh("bash %s/demo.sh" % tmp, cwd=S)
    print(ns["ID"], t, "| demo patched:", bad.returncode, "clean:", good.returncode)
    if bad.returncode == 0: print(bad.stdout[-500:])
    if good.returncode: print(good.stdout[-1500:], good.stderr[-500:])
    if bad.returncode and "build failed" in bad.stdout + bad.stderr: print(bad.stdout, bad.stderr)
for a in sys.argv[1:]: main(a, False)
