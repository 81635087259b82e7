#!/usr/bin/env python3
# plants the bugs of tools/bugs/*.py in a scratch copy of /repo, confirms them and writes /verif/seeded/<id>/
import glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/bug_wt"
BUGS = {}
def bug(id, prop, edits, needs, breaks, test, pkg):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, test=test, pkg=pkg)
for f in sorted(glob.glob(ROOT + "/tools/bugs/*.py")):
    exec(compile(open(f).read(), f, "exec"))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, 1 with the patch; runs the test beside it in the package through an overlay
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME="$tmp" GOFLAGS=-mod=mod GOCACHE="${GOCACHE:-$(HOME=%(home)s go env GOCACHE)}" GOMODCACHE="${GOMODCACHE:-$(HOME=%(home)s go env GOMODCACHE)}" GOPROXY=off
export GOFLAGS=
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run TestDemo ./%(pkg)s
'''
DEMO = DEMO.replace(' GOFLAGS=-mod=mod', '').replace('%(home)s', '"$oldhome"').replace('here=', 'oldhome=$HOME\nhere=').replace('export GOFLAGS=\n', '')
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
want = sys.argv[1:] or sorted(BUGS)
for id in want:
    b = BUGS[id]
    d = f"{ROOT}/seeded/{id}"
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree("/repo", WT, symlinks=True)
    for f, old, new in b["edits"]:
        s = open(f"{WT}/{f}").read()
        if s.count(old) != 1:
            print(id, "old text occurs", s.count(old), "times in", f); break
        open(f"{WT}/{f}", "w").write(s.replace(old, new))
    else:
        patch = sh("git diff", WT).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo_test.go.txt", "w").write(b["test"])
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        v = sh("go build ./... && go test -count=1 -skip TestFilter_SNR ./... 2>&1 | grep -v '^ok\\|no test files'", WT)
        clean = sh(f"bash {d}/demo.sh", "/repo")
        bad = sh(f"bash {d}/demo.sh", WT)
        ok = v.stdout.strip() == "" and v.stderr.strip() == "" and clean.returncode == 0 and bad.returncode != 0
        print(id, "OK" if ok else "NOT OK", "" if ok else (v.stdout[-600:], v.stderr[-600:], clean.returncode, clean.stdout[-500:], clean.stderr[-300:], bad.returncode, bad.stdout[-500:]), bad.stdout.strip().split("\n")[1][:150] if ok else "")
        if not ok: shutil.rmtree(d)
shutil.rmtree(WT, ignore_errors=True)
