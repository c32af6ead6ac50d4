#!/usr/bin/env python3
"""Makes and verifies planted bugs: mkbug.py SPEC.py...

A spec defines BUGS, a list of dict(id, property, needs, breaks, edits=[(file,
old, new)], demo=Go test source (package ofxgo, TestDemo...), cmd=True for a
test of cmd/ofx). The result goes to /verif/seeded/<id>.
"""
import json, os, shutil, subprocess, sys, runpy

SCR = "/tmp/mkbug"
ENV = ". /opt/vp/env.sh 2>/dev/null;"

DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/PKGzz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
export TMPDIR="$T"
go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run 'TestDemo' ./PKG
'''

def sh(cmd, cwd=SCR, ok=True):
    p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def main():
    good = True
    for spec in sys.argv[1:]:
        for b in runpy.run_path(spec)["BUGS"]:
            out = "/verif/seeded/" + b["id"]
            if os.path.exists(out): shutil.rmtree(out)
            os.makedirs(out)
            if os.path.exists(SCR): shutil.rmtree(SCR)
            subprocess.check_call(["git", "clone", "-q", "/repo", SCR])
            pkg = "cmd/ofx/" if b.get("cmd") else ""
            open(out + "/demo_test.go", "w").write(b["demo"])
            open(out + "/demo.sh", "w").write(DEMO.replace("PKG", pkg).replace("-vet=off", "-race -vet=off" if b.get("race") else "-vet=off"))
            os.chmod(out + "/demo.sh", 0o755)
            for n, t in b.get("files", {}).items():
                open(os.path.join(out, n), "w").write(t)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
            r0, o0 = sh("bash %s/demo.sh" % out)
            for f, old, new in b["edits"]:
                p = os.path.join(SCR, f); s = open(p).read()
                if s.count(old) != 1: sys.exit("%s: %d matches in %s of %r" % (b["id"], s.count(old), f, old))
                open(p, "w").write(s.replace(old, new))
            sh("gofmt -l . ")
            r, d = sh("git diff"); open(out + "/patch.diff", "w").write(d)
            rb, ob = sh("go build ./... && go vet ./... >/dev/null 2>&1; gofmt -l *.go cmd")
            rt, ot = sh("go test ./... 2>&1 | tail -20; exit ${PIPESTATUS[0]}")
            r1, o1 = sh("bash %s/demo.sh" % out)
            fine = r0 == 0 and r1 != 0 and rt == 0 and "build failed" not in o1 and "TestDemo" in o1
            good &= fine
            print(b["id"], "OK" if fine else "BAD", "demo clean", r0, "patched", r1, "tests", rt, ob.strip())
            if not fine: print(o0[-1500:], "\n----\n", ot[-500:], "\n----\n", o1[-1500:])
    if os.path.exists(SCR): shutil.rmtree(SCR)
    sys.exit(0 if good else 1)
main()
