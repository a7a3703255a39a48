#!/usr/bin/env python3
"""Make and confirm a planted bug: seed.py SPEC...   (run by hand; no check runs it)

Works in a scratch copy of /repo; writes /verif/seeded/<id>/ only when the patch
builds, passes the stable tests, and the demo tells it from the unchanged tree.
"""
import sys, re, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
cp go.mod "$w/go.mod" && cp /opt/vp/mod/go.sum "$w/go.sum" || exit 2
go mod edit -dropreplace=github.com/suiyunonghen/DxCommonLib "$w/go.mod" || exit 2
export GOFLAGS="-mod=mod -modfile=$w/go.mod"
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$w/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$w/o.json" -run '^TestSeedDemo$' .
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def edit(path, blocks):
    s = open(path, newline='').read()
    crlf = '\r\n' in s
    for m in re.finditer(r'<<<<(\d*)\n(.*?)\n====\n(.*?)\n?>>>>', blocks, re.S):
        cnt, old, new = int(m.group(1) or 1), m.group(2), m.group(3)
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != cnt:
            raise SystemExit("%s: count %d for:\n%s" % (path, s.count(old), old))
        s = s.replace(old, new)
    open(path, 'w', newline='').write(s)


env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="0")
for chunk in [c for f in sys.argv[1:] for c in re.split(r'(?m)^#{5,}\n', open(f).read()) if c.strip()]:
    head, rest = chunk.split("---EDIT", 1)
    edits, demo = rest.split("---DEMO\n", 1)
    meta = dict(re.match(r'(\w+): (.*)', l).groups() for l in head.strip().splitlines())
    sid = meta["id"]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("git -C /repo worktree prune; cp -a /repo %s/repo" % W, "/")
    R = W + "/repo"
    sh("git checkout -q -- . && git clean -fdq", R)
    for part in re.split(r'(?m)^file: ', edits)[1:]:
        fn, blocks = part.split("\n", 1)
        edit(os.path.join(R, fn.strip()), blocks)
    diff = subprocess.run("git diff --binary", cwd=R, shell=True, capture_output=True).stdout
    sd = os.path.join(W, "seed")
    os.makedirs(sd)
    imports = sorted(set(re.findall(r'(?m)^// import (.*)$', demo)) | {'"testing"'})
    open(sd + "/demo_test.go", "w").write("package dxsvalue\n\nimport (\n%s\n)\n\n%s" % ("\n".join("\t" + i for i in imports), re.sub(r'(?m)^// import .*\n', '', demo)))
    sh("gofmt -w demo_test.go", sd)
    d = DEMO
    if meta.get("race") == "yes":
        d = d.replace("CGO_ENABLED=0", "CGO_ENABLED=1").replace("go test -vet", "go test -race -vet")
    open(sd + "/demo.sh", "w").write(d)
    os.chmod(sd + "/demo.sh", 0o755)
    open(sd + "/patch.diff", "wb").write(diff)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(sd + "/meta.json", "w"), indent=1, ensure_ascii=False)
    # build and stable tests in the scratch copy
    mod = "cp go.mod %s/go.mod && cp /opt/vp/mod/go.sum %s/go.sum && go mod edit -dropreplace=github.com/suiyunonghen/DxCommonLib %s/go.mod && export GOFLAGS='-mod=mod -modfile=%s/go.mod' && " % (W, W, W, W)
    r = sh(mod + "go build ./...", R, env=env)
    if r.returncode:
        print(sid, "BUILD FAILS", r.stderr); continue
    bad = []
    want = json.load(open("/opt/vp/BASELINE.json"))
    names = [t for t in (want["stable"])]
    r = sh(mod + "go test -vet=off -c -o %s/t.test . " % W, R, env=env)
    for t in names:
        tn = t.split("::")[-1].split("/")[-1].split(".")[-1]
        r = sh("%s/t.test -test.timeout 60s -test.run '^%s$'" % (W, tn), R, env=env)
        if r.returncode:
            bad.append(tn)
    sh("rm -f 'd:\\2.bson' 'd:\\3.bson'", R)
    if bad:
        print(sid, "STABLE TESTS FAIL", bad); continue
    r1 = sh(sd + "/demo.sh", R, env=env)
    sh("git checkout -q -- .", R)
    r0 = sh(sd + "/demo.sh", R, env=env)
    if r0.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:], r0.stderr[-500:]); continue
    if r1.returncode == 0 or "build failed" in r1.stdout:
        print(sid, "DEMO PASSES WITH PATCH / does not build", r1.stdout[-800:]); continue
    dst = os.path.join(V, "seeded", sid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(sd, dst)
    print(sid, "ok:", r1.stdout.strip().splitlines()[:3])
shutil.rmtree(W, ignore_errors=True)
