#!/usr/bin/env python3
"""tools/mkbug.py SPEC.py: writes seeded/<id>/ from a spec (edits, demo test), see the specs' format below.
SPEC.py defines: id, prop, needs, breaks, edits=[(file, old, new)], module, pkg, demo (Go test source with TestDemo)"""
import json, os, subprocess, sys, tempfile
s = {}
exec(open(sys.argv[1]).read(), s)
H = "/verif/seeded/" + s["id"]
os.makedirs(H, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
try:
    for f, old, new in s["edits"]:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(H + "/patch.diff", "wb").write(d)
json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(H + "/meta.json", "w"), indent=1)
open(H + "/demo_test.go.txt", "w").write(s["demo"])
open(H + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo: exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export DEMO_DIR="$here"
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS="-mod=mod -buildvcs=false"
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%%s/%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$ov"
cd %s && go test -vet=off -count=1 -timeout 200s -overlay "$ov" -run '^TestDemo$' ./%s
""" % (s["module"], s["pkg"], s["module"], s["pkg"]))
