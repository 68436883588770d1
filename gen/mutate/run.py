#!/usr/bin/env python3
"""run.py [-n COUNT] [-s SEED] [-w WORKERS] [-f FILE ...]: samples small changes to the code, keeps those that build
and pass the tests, and runs the quick checks that concern the file until one reports a violation.  What no check
reports is appended to OUT (default /tmp/survivors.jsonl).  Development only; works on copies under /tmp/mut."""
import argparse, json, os, random, subprocess, sys, threading, queue, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V + "/bin")
from vlib import goenv
ORDER = {"lexer.go": "C01 C02 C03 C26 C29", "parser.go": "C03 C04 C08 C20", "process.go": "C03 C04 C02 C05 C06 C07 C08 C20 C17 C18 C19 C21 C16 C14 C10 C12 C15",
         "linter.go": "C06 C07 C02 C19 C16 C25 C27 C29", "compiler.go": "C09 C08 C27", "vm.go": "C11 C13 C12 C10 C24 C23 C22", "expr.go": "C08 C10 C12 C11 C09 C06 C07 C05 C13 C02 C27",
         "semantics.go": "C21", "range.go": "C17 C18 C19 C20", "symbols.go": "C05 C17 C18", "diag.go": "C16 C25 C02 C29", "lsp/lsp.go": "C14 C15 C16 C17 C18 C19 C20 C21 C26 C28",
         "lsp/doc.go": "C16 C14 C26", "dbg/dbg.go": "C22 C23 C24 C28", "cmd/tealsarif/main.go": "C25", "internal/sarif/sarif.go": "C25", "cmd/tealsp/main.go": "C14",
         "cmd/tealdbg/main.go": "C22", "go_algorand.go": "C03 C04 C12 C20 C10 C08", "langspec.go": "C20", "debug/tokenize/main.go": "C29", "debug/lint/main.go": "C29", "debug/interpret/main.go": "C29"}
WEIGHT = {"expr.go": 1, "go_algorand.go": 1, "process.go": 3, "lsp/lsp.go": 4}
ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", default="1"); ap.add_argument("-w", type=int, default=6)
ap.add_argument("-f", nargs="*"); ap.add_argument("-o", default="/tmp/survivors.jsonl"); ap.add_argument("--all", action="store_true")
ap.add_argument("-i", help="only the changes of an earlier list of survivors")
A = ap.parse_args()
os.makedirs("/tmp/mut", exist_ok=True)
src = "/tmp/mut/gen/main.go"; os.makedirs("/tmp/mut/gen", exist_ok=True)
shutil.copy(V + "/gen/mutate/mutgen.go.txt", src)
subprocess.run(["go", "build", "-o", "/tmp/mut/mutgen", src], env=goenv(), check=True, cwd="/tmp/mut/gen")
files = A.f or list(ORDER)
ms = [json.loads(l) for l in subprocess.run(["/tmp/mut/mutgen"] + files, cwd="/repo", stdout=subprocess.PIPE, check=True).stdout.splitlines()]
r = random.Random(A.s)
if A.i:
    pick, old = [], [json.loads(l) for l in open(A.i)]
    for o in old:
        c = [m for m in ms if all(m[k] == o[k] for k in ("File", "Func", "Kind", "Old", "New"))]
        c.sort(key=lambda m: abs(m["Line"] - o["Line"]))
        if c and c[0] not in pick: pick.append(c[0])
    r.shuffle(pick)
elif A.all:
    r.shuffle(ms); pick = ms
else:
    w = []
    for m in ms:
        per = sum(1 for x in ms if x["File"] == m["File"]) if False else 0
    cnt = {}
    for m in ms: cnt[m["File"]] = cnt.get(m["File"], 0) + 1
    pick, seen = [], set()
    tot = sum(cnt[f] ** 0.7 * WEIGHT.get(f, 1) for f in cnt)
    for f in cnt:
        fm = [m for m in ms if m["File"] == f]
        k = max(1, round(A.n * cnt[f] ** 0.7 * WEIGHT.get(f, 1) / tot))
        pick += r.sample(fm, min(k, len(fm)))
    r.shuffle(pick)
print(len(ms), "changes,", len(pick), "picked", flush=True)
q = queue.Queue()
for m in pick: q.put(m)
lock = threading.Lock()
stat = {}
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing", []) or [])
def work(k):
    d = "/tmp/mut/w%d" % k
    subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d], check=True)
    env = goenv(); env.update(VERIF_REPO=d, VERIF_CACHE="/tmp/vcache", VERIF_OUT="/tmp/mut/out%d" % k, VERIF_SEED="1")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/" + m["File"]
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["From"]] + m["New"].encode() + b[m["To"]:])
        try:
            if m["Kind"] == "field":
                x = open(p, "rb").read(); i = m["From"]
                if x[i:i+1] == b",": open(p, "wb").write(x[:i] + x[i+1:])
            c = subprocess.run(["go", "build", "./..."], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if c.returncode: res = "nobuild"
            else:
                try:
                    c = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                    bad = c.returncode
                except subprocess.TimeoutExpired: bad = 1
                if bad: res = "tests"
                else:
                    res = None; bad2 = []
                    for prop in ORDER[m["File"]].split():
                        try: c = subprocess.run(["python3", V + "/bin/check.py", prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                        except subprocess.TimeoutExpired: bad2.append(prop + ":timeout"); continue
                        if c.returncode == 1: res = prop; break
                        if c.returncode != 0: bad2.append(prop + ":" + c.stdout[-300:])
                    if res is None: res = "SURVIVED"
                    m["noanswer"] = bad2
        finally:
            open(p, "wb").write(b)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            if res == "SURVIVED" or m.get("noanswer"):
                m["res"] = res
                open(A.o, "a").write(json.dumps(m) + "\n")
                print(res, m["File"], m["Line"], m["Func"], m["Kind"], repr(m["Old"][:70]), "->", repr(m["New"][:70]), m.get("noanswer") or "", flush=True)
    subprocess.run(["rm", "-rf", d])
ts = [threading.Thread(target=work, args=(k,)) for k in range(A.w)]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
