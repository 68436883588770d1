#!/usr/bin/env python3
"""plant.py [-n] [id ...]: turns the bug definitions of plants/*.py into
/verif/seeded/<id>/ after confirming each of them in a scratch copy of /repo,
and runs the property's quick check against it (-n: not)."""
import os, sys, json, subprocess, shutil, glob, re, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = os.environ.get("PLANT_DIR", "/tmp/plant")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])

DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; non-zero: it is broken
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cp "$HERE/main.go.txt" "$T/main.go"
printf '{"Replace":{"%s/verifdemo/main.go":"%s/main.go"}}' "$PWD" "$T" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./verifdemo || exit 98
export DEMO_TMP="$T" DEMO_REPO="$PWD"
timeout 100 "$T/demo"
'''

BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


def sh(cmd, cwd=SCRATCH, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    run = "-n" not in sys.argv
    for f in sorted(glob.glob(os.path.join(HERE, "plants", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
    prelude = open(os.path.join(HERE, "plants", "prelude.go.txt")).read()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    root = sh(["git", "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[-1]
    results = {}
    for b in BUGS:
        if args and not any(b["id"] == a or b["property"] == a for a in args):
            continue
        sh(["git", "checkout", "-q", "--", "."])
        d = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(SCRATCH, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise Exception("edit matches %d times in %s: %r" % (s.count(old), f, old[:60]))
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "diff"]).stdout
            r = sh(["go", "build", "./..."])
            if r.returncode:
                raise Exception("does not build: " + r.stdout)
            r = sh(["go", "test", "-vet=off", "-count=1", "./..."])
            if r.returncode:
                raise Exception("tests fail: " + r.stdout[-600:])
            # the removed lines must stem from the original repository
            removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            for f in {e[0] for e in b["edits"]}:
                orig = [l.strip() for l in sh(["git", "show", root + ":" + f]).stdout.splitlines()]
                bad = [l for l in removed if l and l not in orig]
                if bad and len({e[0] for e in b["edits"]}) == 1:
                    raise Exception("not original lines: %r" % bad)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "main.go.txt"), "w").write(prelude + "\n" + b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh(["bash", os.path.join(d, "demo.sh")])
            if r.returncode in (0, 98, 99):
                raise Exception("demo on the patched tree: %d %s" % (r.returncode, r.stdout[-1500:]))
            msg = r.stdout.strip().splitlines()[0] if r.stdout.strip() else ""
            sh(["git", "stash", "-q"])
            r = sh(["bash", os.path.join(d, "demo.sh")])
            sh(["git", "stash", "pop", "-q"])
            if r.returncode:
                raise Exception("demo on the clean tree: %d %s" % (r.returncode, r.stdout[-1500:]))
        except Exception as e:
            shutil.rmtree(d, ignore_errors=True)
            print("%-28s REJECTED %s" % (b["id"], e), flush=True)
            continue
        if not run:
            print("%-28s ok   %s" % (b["id"], msg[:100]), flush=True)
            continue
        t = time.time()
        r = sh(["python3", os.path.join(VERIF, "bin", "check.py"), b["property"], "quick"], cwd=VERIF,
               env=dict(ENV, VERIF_REPO=SCRATCH, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        caught = r.returncode == 1 and ("VIOLATION property=" + b["property"]) in r.stdout
        line = next((l for l in r.stdout.splitlines() if "VIOLATION" in l), r.stdout.strip()[-200:])
        print("%-28s %s (rc %d, %.0fs) %s" % (b["id"], "CAUGHT" if caught else "MISSED", r.returncode, time.time() - t, "" if caught else line), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
