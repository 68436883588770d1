"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC on a module over a file of records, running the harness,
reporting."""
import base64, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """the machinery itself failed: no verdict"""


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e["PATH"]
    return e


class Ctx:
    """one run of one check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        base = os.path.join(OUT, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + ".", dir=base)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.samples_n = 0
        self.violations = []
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.n = 0
        self._harness = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def harness_bin(self, source="main.go"):
        if source in self._harness:
            return self._harness[source]
        out = os.path.join(self.dir, "harness-" + source.replace("/", "-"))
        ov = out + ".json"
        json.dump({"Replace": {os.path.join(REPO, "verifharness/main.go"): os.path.join(VERIF, "harness", source)}},
                  open(ov, "w"))
        p = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./verifharness"], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("the harness does not build against the working tree:\n" + p.stdout)
        self._harness[source] = out
        return out

    def build_cmd(self, pkg, name):
        out = os.path.join(self.dir, name)
        p = subprocess.run(["go", "build", "-o", out, pkg], cwd=REPO, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("%s does not build:\n%s" % (pkg, p.stdout))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, recs, env=None, cfg=None, per_shard=120, on_violation=None, timeout=3000, heap="2g", one_each=False):
        """run the module over the records (dicts with an id); returns {id: output record}.
        The records are split over several TLC processes."""
        if not recs:
            return {}
        cache = os.environ.get("VERIF_CACHE")      # while developing: keep what TLC printed for the same input
        if cache:
            hit = []
            if on_violation:
                report, on_violation = on_violation, lambda *a: (hit.append(1), report(*a))
            h = hashlib.sha256(json.dumps([module, env, cfg, one_each, recs], sort_keys=True).encode())
            for f in sorted(os.listdir(SPEC)):
                if f.endswith((".tla", ".cfg")):
                    h.update(open(os.path.join(SPEC, f), "rb").read())
            path = os.path.join(cache, h.hexdigest())
            if os.path.exists(path):
                return {k: v for k, v in json.load(open(path))}
            res = self._tlc(module, recs, env, cfg, per_shard, on_violation, timeout, heap, one_each)
            if hit:
                return res
            os.makedirs(cache, exist_ok=True)
            json.dump(list(res.items()), open(path + ".%d" % os.getpid(), "w"))
            os.rename(path + ".%d" % os.getpid(), path)
            return res
        return self._tlc(module, recs, env, cfg, per_shard, on_violation, timeout, heap, one_each)

    def _tlc(self, module, recs, env, cfg, per_shard, on_violation, timeout, heap, one_each):
        if one_each and len(recs) > NCPU:      # a process per record, some at a time
            res = {}
            for k in range(0, len(recs), NCPU):
                for i, v in self._tlc(module, recs[k:k + NCPU], env, cfg, per_shard, on_violation, timeout, heap, True).items():
                    res.setdefault(i, []).extend(v)
            return res
        n = len(recs) if one_each else max(1, min(NCPU, (len(recs) + per_shard - 1) // per_shard))
        shards = [recs[i::n] for i in range(n)]
        procs = []
        for i, sh in enumerate(shards):
            self.n += 1
            d = os.path.join(self.dir, "tlc%d" % self.n)
            os.makedirs(d)
            f = os.path.join(d, "in.ndjson")
            with open(f, "w") as w:
                for r in sh:
                    w.write(json.dumps(r) + "\n")
            e = dict(os.environ, TLA_IN=f, **(env or {}))
            cmd = ["java", "-XX:+UseSerialGC" if n > 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m",
                   "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
                   "-workers", "1" if n >= NCPU // 2 else "2", "-metadir", os.path.join(d, "states"),
                   "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
            out = open(os.path.join(d, "out.txt"), "w")
            procs.append((subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT), d, sh))
        res = {}
        for p, d, sh in procs:
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                for q, _, _ in procs:
                    q.kill()
                raise Broken("TLC on %s exceeded its time limit" % module)
            got, tail = {}, []
            for line in open(os.path.join(d, "out.txt"), encoding="utf-8", errors="replace"):
                if line.startswith('"@@'):
                    o = json.loads(json.loads(line)[2:])
                    got.setdefault(o["id"], []).append(o)
                else:
                    tail.append(line)
            text = "".join(tail)
            m = re.search(r"(\d+) states generated, (\d+) distinct", text)
            if m:
                self.transitions += int(m.group(1)) - len(sh)
                self.states += int(m.group(2))
            if p.returncode != 0 or "No error has been found" not in text:
                if on_violation and "is violated" in text:
                    on_violation(text, sh)
                else:
                    for q, _, _ in procs:
                        q.kill()
                    i = max(0, text.find("Error:"))
                    raise Broken("TLC on %s failed:\n%s\n...\n%s" % (module, text[i:i + 500], text[-int(os.environ.get("VERIF_TAIL", "1500")):]))
            for k, v in got.items():
                res.setdefault(k, []).extend(v)
            shutil.rmtree(d, ignore_errors=True)
        return res

    def tlc1(self, *a, **k):
        """as tlc, for modules that write exactly one record per input"""
        res = self.tlc(*a, **k)
        return {i: v[0] for i, v in res.items()}

    # ---------------------------------------------------------------- harness
    def harness(self, inputs, procs=None, source="main.go"):
        """run the real code; returns {id: observation}"""
        if not inputs:
            return {}
        exe = self.harness_bin(source)
        n = procs or max(1, min(NCPU, len(inputs) // 200))
        shards = [inputs[i::n] for i in range(n)]
        res = {}
        running = [self._feed(exe, s) for s in shards]
        for sh, st in zip(shards, running):
            self._collect(exe, sh, st, res)
        return res

    def _feed(self, exe, sh):
        self.n += 1
        fi = os.path.join(self.dir, "h%d.in" % self.n)
        fo = os.path.join(self.dir, "h%d.out" % self.n)
        with open(fi, "w") as w:
            for r in sh:
                w.write(json.dumps(r) + "\n")

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        p = subprocess.Popen([exe], stdin=open(fi), stdout=open(fo, "w"), stderr=subprocess.PIPE, preexec_fn=lim,
                             env=dict(os.environ, GOGC="200"))
        return p, fi, fo

    def _collect(self, exe, sh, st, res, depth=0):
        p, fi, fo = st
        try:
            _, err = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        got = 0
        for line in open(fo):
            try:
                o = json.loads(line)
            except ValueError:
                break
            res[o["id"]] = o
            got += 1
        os.unlink(fi)
        os.unlink(fo)
        if got < len(sh):
            if p.returncode == 4:
                raise Broken("harness: " + err.decode(errors="replace")[-2000:])
            if p.returncode != 3:      # 3: a timeout was reported for the last answered input
                res[sh[got]["id"]] = {"id": sh[got]["id"], "crash": err.decode(errors="replace")[:600]}
                got += 1
            else:
                self.timeouts = getattr(self, "timeouts", 0) + 1
            if depth > 40 or getattr(self, "timeouts", 0) > 3:
                for r in sh[got:]:
                    res[r["id"]] = {"id": r["id"], "skipped": True}
                return
            rest = sh[got:]
            if rest:
                self._collect(exe, rest, self._feed(exe, rest), res, depth + 1)

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, detail):
        self.violations.append((what, detail))

    def sample(self, **kw):
        if len(self.samples) < 5:
            self.samples.append({k: (v if len(str(v)) < 600 else str(v)[:600]) for k, v in kw.items()})

    def finish(self, level="model_checking", rules=None):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples, **self.notes),
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                  assumptions=self.assumptions)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)
        if self.violations:
            d = os.path.join(OUT, "replays")
            os.makedirs(d, exist_ok=True)
            what, detail = self.violations[0]
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            json.dump(dict(property=self.prop, what=what, detail=detail,
                           others=[w for w, _ in self.violations[1:20]], count=len(self.violations)),
                      open(path, "w"), indent=1, default=str)
            print("%s: %s" % (self.prop, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s %s: held on everything explored (%d states, %d behaviours replayed, %.1f s)" % (
            self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0


# -------------------------------------------------------------------- texts
def elems(bs):
    """bytes -> the specification's sequence of characters"""
    out = []
    for n in bs:
        if n in (9, 10, 12, 13) or 32 <= n < 127:
            out.append(chr(n))
        elif n < 128:
            out.append("c%d" % n)
        else:
            out.append("x%02X" % n)
    return out


def spelled(latin):
    """text reported by the harness (byte n as code point n) in the specification's spelling"""
    return "".join(elems(latin.encode("latin1")))


def b64(bs):
    return base64.b64encode(bs if isinstance(bs, bytes) else bs.encode("latin1")).decode()


TABLES = json.load(open(os.path.join(SPEC, "tables.json")))
DOCS = json.load(open(os.path.join(SPEC, "docs.json")))
TYPEMAP = json.load(open(os.path.join(SPEC, "typemap.json"))) if os.path.exists(os.path.join(SPEC, "typemap.json")) else {}


def operand(v):
    if isinstance(v, dict):
        return ["", v["b"]]
    return [spelled(v), ""]


def real_entry(e):
    """a listing entry observed in the real code, in canonical form [op, [[s, hex]...]]"""
    t = e.get("T", "")
    m = TYPEMAP.get(t)
    if m is None:
        if e.get("nop"):
            return ["", []]
        w = e["S"].split(" ")
        return [w[0], [[spelled(x), ""] for x in w[1:] if x]]
    ops = []
    for f in m[1]:
        v = e.get("F", {}).get(f)
        if v is None:
            return ["?" + t, []]
        if isinstance(v, list):
            ops += [operand(x) for x in v]
        else:
            ops.append(operand(v))
    return [m[0], ops]


def spec_entry(e):
    return [e["op"], [[x["s"], bytes(x["b"]).hex()] for x in e["a"]]]
