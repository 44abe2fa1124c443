#!/usr/bin/env python3
"""Build one check against /repo's working tree and run it.

usage: run.py PROPERTY

The harness is laid over /repo with go's -overlay, so nothing is written there;
go.mod and go.sum are copied because -mod=mod may rewrite them.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "internal", "zzverif")

# property -> (command package, bridges it needs, build with the race detector)
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))
CHECKS["tables"] = {"cmd": "tables", "bridges": ["uncompressedheader/cdf"]}

# properties of inter frames, and the status of a harness that does not fit the tree
INTER = ("F07", "F08", "F10", "N03", "N04", "N05", "N06", "T05", "V08")
UNFIT = 5

# commands that call single steps of the decoding process with state they set up
STEPS = ("deblock", "cdef", "restore", "upscale", "intra", "tile", "inter", "mv", "transform")


def overlay(work, cmd, bridges):
    rep = {}
    h = os.path.join(VERIF, "harness")
    for sub in ("vlib", "model", os.path.join("cmd", cmd)):
        d = os.path.join(h, sub)
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                rep[os.path.join(ROOT, sub, f)] = os.path.join(d, f)
    for b in bridges:
        pkg, name = b.split("/")
        rep[os.path.join(REPO, "internal", pkg, "zz_verif_" + name + ".go")] = os.path.join(h, "bridge", pkg, name + ".go")
    path = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def every(prop):
    """whether every case of the check that just ran was a violation"""
    try:
        doc = json.load(open(os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), prop + ".json")))
    except (OSError, ValueError):
        return False
    return doc["violations"] >= max(10, 0.95 * doc["coverage"]["evaluations"])


def main():
    prop = sys.argv[1]
    check = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="gov1verif.")
    try:
        env = dict(os.environ)
        env.setdefault("HOME", "/root")
        env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", VERIF_DIR=VERIF)
        env["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(work, "gov1.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(work, "gov1.mod"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "gov1.sum"))
        binary = os.path.join(work, "check")

        def build(check):
            cmd = ["go", "build", "-overlay", overlay(work, check["cmd"], check.get("bridges", [])), "-o", binary]
            if check.get("race"):
                cmd.append("-race")
                env["CGO_ENABLED"] = "1"
            cmd.append("./internal/zzverif/cmd/" + check["cmd"])
            return subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

        def whole():
            """The part this check drives alone has another shape here: watch it as part of whole streams."""
            env["VERIF_AS"] = "G03" if check["cmd"] in ("inter", "mv") or prop in INTER else "G02"
            return build(CHECKS["G03"])

        b = build(check)
        if b.returncode:
            print("the harness does not build against this tree:\n" + b.stdout)
            if check["cmd"] == "video" or whole().returncode:
                return 3
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "race")
        env["VERIF_RACE_LOG"] = os.path.join(work, "race")
        log = os.path.join(work, "log")
        with open(log, "w") as e:
            r = subprocess.run([binary, prop], cwd=work, env=env, stdout=subprocess.PIPE, stderr=e, text=True)
            if r.returncode == UNFIT and check["cmd"] != "video" and "VERIF_AS" not in env:
                print(r.stdout)
                if whole().returncode:
                    return 3
                r = subprocess.run([binary, prop], cwd=work, env=env, stdout=subprocess.PIPE, stderr=e, text=True)
            elif r.returncode == 1 and check["cmd"] in STEPS and "VERIF_AS" not in env and every(prop):
                # Every single case differs: either the step no longer takes its
                # state the way the harness gives it, or nothing decodes any more.
                # Whole streams tell.
                if whole().returncode:
                    return 3
                step, r = r, None
                for as_ in ("G02", "G03"):
                    env["VERIF_AS"] = as_
                    r = subprocess.run([binary, prop], cwd=work, env=env, stdout=subprocess.PIPE, stderr=e, text=True)
                    if r.returncode:
                        break
                else:
                    print("%s differs in every case when driven alone, but whole streams decode exactly; judged by those" % prop)
                    for l in step.stdout.splitlines():
                        if not l.startswith("VIOLATION"):
                            print("  " + l)
        races = ""
        for f in sorted(os.listdir(work)):
            if f.startswith("race."):
                races += open(os.path.join(work, f)).read()
        sys.stdout.write(r.stdout)
        if races:
            rdir = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), "replay")
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, prop + ".race.txt")
            open(p, "w").write(races)
            print(races[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if r.returncode in (0, 1):
            return r.returncode
        # The program under observation brought the process down: a fatal error
        # (stack overflow, concurrent map access, out of memory) no recover sees.
        text = open(log).read()
        if r.returncode == 2 and ("fatal error:" in text or "panic:" in text or "goroutine " in text):
            rdir = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), "replay")
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, prop + ".crash.txt")
            open(p, "w").write(text)
            print(text[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        print(text[-3000:])
        print("the check ended with status", r.returncode)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
