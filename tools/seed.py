#!/usr/bin/env python3
"""Make and check planted bugs.

usage: seed.py make SEEDFILE...   write seeded/<id>/ from a seed description (python file)
       seed.py verify [ID...]     patch applies, builds, stable tests pass, demo ok/fails
       seed.py catch [ID...]      which of them the property's check catches (quick tier)
"""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# Exit 0 on the unchanged tree, nonzero with the patch. Run with cwd /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export DEMO_DIR=$here
printf '{"Replace":{%(replace)s}}' %(places)s > "$work/overlay.json"
cp go.mod "$work/m.mod"
cp go.sum "$work/m.sum"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=$work/m.mod" %(env)sgo test %(flags)s-overlay "$work/overlay.json" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
"""


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="gov1seed.")
    shutil.rmtree(d)
    r = sh("git -C /repo worktree list >/dev/null; git clone -q --shared /repo %s" % d)
    assert r.returncode == 0, r.stdout
    return d


def make(files):
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            d = os.path.join(S, s["id"])
            w = copy()
            try:
                for path, old, new in s["edits"]:
                    p = os.path.join(w, "internal", path)
                    t = open(p).read()
                    assert t.count(old) == 1, (s["id"], path, t.count(old), old)
                    open(p, "w").write(t.replace(old, new))
                g = sh("gofmt -l internal", w).stdout
                base = sh("git -C /repo ls-tree -r --name-only HEAD internal").stdout
                if g.strip():
                    for x in g.split():
                        sh("gofmt -w " + x, w)
                # only lines of the original repository count
                diff = sh("git diff", w).stdout
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                for m in re.finditer(r"^--- a/(\S+)", diff, re.M):
                    pass
                cur = None
                for line in diff.splitlines():
                    if line.startswith("--- a/"):
                        cur = line[6:]
                        orig = sh("git -C /repo show 4d7d5db:" + cur).stdout.splitlines()
                    elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in orig:
                        print("WARNING", s["id"], "changes a line that is not original:", line)
                pkg = "internal/" + s["pkg"]
                flags = "-race " if s.get("race") else ""
                env = "CGO_ENABLED=1 " if s.get("race") else ""
                files = {pkg + "/zz_demo_test.go": "demo_test.go.txt"}
                for n, (name, text) in enumerate(sorted(s.get("extra", {}).items())):
                    files[name] = "demo_%d.go.txt" % n
                    open(os.path.join(d, files[name]), "w").write(text)
                replace = ",".join('"%%s/' + a + '":"%%s/' + b + '"' for a, b in files.items()).replace("%%", "%")
                places = " ".join(['"$PWD" "$here"'] * len(files))
                open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=pkg, flags=flags, env=env, replace=replace, places=places))
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                open(os.path.join(d, "demo_test.go.txt"), "w").write(s["demo"].strip() + "\n")
                for name in s.get("files", []):
                    shutil.copy(name, d)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            finally:
                shutil.rmtree(w)
            verify([s["id"]])


def ids(a):
    return a or sorted(os.listdir(S))


def verify(a):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids(a):
        w = copy()
        msg = []
        try:
            d = os.path.join(S, i)
            r = sh("bash %s/demo.sh" % d, w)
            if r.returncode:
                msg.append("demo fails on the unchanged tree:\n" + r.stdout[-1500:])
            r = sh("git apply %s/patch.diff" % d, w)
            if r.returncode:
                msg.append("does not apply: " + r.stdout)
            e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
            r = sh("go build ./... ", w, env=e)
            if r.returncode:
                msg.append("does not build: " + r.stdout)
            r = sh("go vet ./internal/uncompressedheader ./internal/header ./internal/util >/dev/null; go test ./internal/bitstream ./internal/header ./internal/util ./internal/uncompressedheader 2>&1 | grep -v '^ok'", w, env=e)
            if "FAIL" in r.stdout:
                msg.append("tests fail: " + r.stdout[-800:])
            r = sh("bash %s/demo.sh" % d, w)
            if r.returncode == 0:
                msg.append("demo passes with the patch")
            elif "build failed" in r.stdout or "setup failed" in r.stdout:
                msg.append("demo does not build with the patch: " + r.stdout[-800:])
        finally:
            shutil.rmtree(w)
        print(i, "OK" if not msg else "BAD " + "; ".join(msg), flush=True)


def catch(a):
    for i in ids(a):
        d = os.path.join(S, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        w = copy()
        try:
            r = sh("git apply %s/patch.diff" % d, w)
            assert r.returncode == 0, (i, r.stdout)
            r = sh("./run.py " + prop, V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/seedevidence"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
            print(i, prop, "caught" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode, flush=True)
        finally:
            shutil.rmtree(w)


{"make": make, "verify": verify, "catch": catch}[sys.argv[1]](sys.argv[2:])
