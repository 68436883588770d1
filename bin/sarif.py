"""C25: the scanner's report, against TealSarif."""
import json, itertools
from collections import Counter
from urllib.parse import unquote_to_bytes, urlsplit
import gens
from vlib import *
from analysis import enc

RULES = ["SYNTAX", "PARSE"] + ["LINT000%d" % i for i in range(1, 9)]
DIRS = ["", "sub", "sub/deep", "x.teal", ".hidden", "a b", "p%41", "q#r?s", "zz/y/x", "sub.teal/w", "+&<>'", "üñ"]
NAMES = ["a.teal", "b.teal", "z.teal", ".teal", "a.b.teal", "a b.teal", "100%.teal", "q?r#s.teal", "c.teal.bak", "teal", "ateal", "x.tea", "README.md",
         "a.teal~", "&<>.teal", "l'x;y.teal", "é.teal", "c.txt", "n.json", ".teal.txt", "A.teal"]


def content(r):
    c = r.random()
    if c < 0.2:
        return ""
    if c < 0.35:
        return "#pragma version 8\nint 1\nreturn\n"
    if c < 0.5:
        return r.choice(["byte \"", "b zz\nx:\nx:", "int", "bogus 1 2\nint 99999999999999999999999", "txn 1\nreturn\nint 2\nint 3", "#pragma version 99",
                         "    b a\na:\n", "int 1\n#pragma version 3", "err\nerr\n\t err\n", "substring 5 1; extract 1 2;b a", "a:\nb:\nc:",
                         "int 1 // x\n  \"un"])
    return gens.join(gens.any_program(r), r)


def tree(r):
    """[(relative path, kind, text)]"""
    out, dirs = {}, {""}
    for _ in range(r.randrange(0, 7)):
        d = r.choice(DIRS)
        n = r.choice(NAMES[:8] + NAMES)
        p = (d + "/" + n).lstrip("/")
        up = [p[:i] for i in range(len(p)) if p[i] == "/"]
        if p in dirs or any(u in out for u in up):
            continue
        dirs |= set(up)
        out[p] = content(r)
    for d in r.sample(DIRS[1:], r.randrange(3)):
        up = [d[:i] for i in range(len(d)) if d[i] == "/"] + [d]
        if not any(u in out for u in up):
            dirs |= set(up)
    return [(d, "dir", "") for d in sorted(dirs) if d] + [(p, "file", t) for p, t in out.items()]


def check(ctx):
    r = ctx.rng
    exe = ctx.build_cmd("./cmd/tealsarif", "tealsarif")
    cases = []          # (tree, single path or None)
    for _ in range(220 if ctx.quick else 4000):
        cases.append((tree(r), None))
    # a file named itself is scanned whatever it is called
    named = NAMES + ["x ", " y.teal", "a.TEAL", "noext", "p%41.teal", "q?.txt", "-path", "a:b.teal"]
    for j in range(50 if ctx.quick else 600):
        d = r.choice(["", "", "sub/", "a b/", "x.teal/", ".hidden/"])
        n = named[j] if j < len(named) else r.choice(["one.teal"] + named)
        cases.append(([(d + n, "file", content(r))], d + n))
    cases += [([], None), ([("a.teal", "file", "")], None), ([("d", "dir", "")], None), ([("x.teal", "dir", ""), ("x.teal/y.teal", "file", "b zz")], None),
              ([("%d/%d.teal" % (i % 3, i), "file", ["", "b q%d" % i, "x:\nx:\nb a\n\"", "err\nint 1"][i % 4]) for i in range(24)], None)]
    many = [("f%d.teal" % i, "file", t) for i, t in enumerate(["b zz", "", "x:\nx:", "\"", "int\nint"])]
    for k in range(2, 5):
        for c in itertools.combinations(many, k):
            cases.append((list(c), None))
    # many files, a deep tree, long files
    n = r.randrange(257, 300)
    cases.append(([("%d/f%d.teal" % (i % 7, i), "file", ["", "b q%d" % i, "x:\nx:\n", "err\nint 1"][r.randrange(4)]) for i in range(n)], None))
    deep = "/".join("d%d" % i for i in range(40))
    cases.append(([(deep + "/a.teal", "file", "b zz"), ("d0/b.teal", "file", "x:\nx:"), (deep + "/c.txt", "file", "b zz")], None))
    from analysis import long_program
    for k in (300, 520) if ctx.quick else (300, 520, 1030):
        cases.append(([("long.teal", "file", gens.join(long_program(r, k), r)), ("z.teal", "file", "b zz")], None))
    recs = []
    for i, (t, single) in enumerate(cases):
        recs.append(dict(id=i, addrs=gens.ADDRS, single=single is not None, order="any" if len(t) <= 3 and i % 4 == 0 else "given",
                         tree=[dict(path=k, name=elems(enc_name(p.split("/")[-1])), kind=kind, src=elems(enc(x))) for k, (p, kind, x) in enumerate(t)]))

    def bad(text, sh):
        i = text.find("is violated")
        raise Broken("TealSarif: a property of the specification fails:\n" + text[max(0, i - 200):i + 3000])
    spec = ctx.tlc("MCSarif", recs, per_shard=40, on_violation=bad)
    # the findings of the analysis itself, for their texts
    texts = sorted({x for t, _ in cases for _, kind, x in t if kind == "file"})
    at = {x: i for i, x in enumerate(texts)}
    ana = ctx.harness([dict(id=i, op="analyze", src=b64(enc(x))) for i, x in enumerate(texts)])
    base = os.path.join(ctx.dir, "trees")
    os.makedirs(base)
    for i, (t, single) in enumerate(cases):
        if not t:
            exp = [[set(), Counter()]]
        else:
            exp = []
            for o in spec[i]:
                exp.append([{t[k][0] for k in o["arts"]},
                            Counter((t[o["arts"][q["art"]]][0], q["rule"], q["level"], q["line"], q["col"]) for q in o["res"])])
            if any(e != exp[0] for e in exp):
                raise Broken("the report depends on the order of the scan")
        root = os.path.join(base, "t%d" % i)
        os.makedirs(root)
        for p, kind, x in t:
            full = os.path.join(root.encode(), enc_name(p))
            if kind == "dir":
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if r.random() < 0.1:     # the file lies elsewhere
                    there = os.path.join(base, "store%d_%d" % (i, len(os.listdir(base))))
                    open(there, "wb").write(enc(x))
                    os.symlink(there, full)
                else:
                    open(full, "wb").write(enc(x))
        target = os.path.join(root, single) if single else root
        c = r.random()
        cwd = base
        if c < 0.3:
            target = os.path.relpath(target, base)
        elif c < 0.4 and not single:
            cwd, target = root, "."
        elif c < 0.5 and not single:
            target += "/"
        elif c < 0.6 and not single:     # the tree lies elsewhere
            os.rename(root, root + "_")
            os.symlink(root + "_", root)
        d = one(ctx, exe, cwd, target, root, exp[0], t, ana, at)
        if d:
            ctx.violation("scanning %s: %s" % (json.dumps(t)[:400], d), dict(tree=t, single=single, target=target, difference=d))
        elif i % max(1, len(cases) // 5) == 0:
            ctx.sample(tree=json.dumps(t), artifacts=sorted(exp[0][0]), results=sum(exp[0][1].values()))
        if os.path.islink(root):
            os.unlink(root)
            root += "_"
        shutil.rmtree(root, ignore_errors=True)
    for path in ("absent", "absent.teal", "absent/x", "") if not ctx.violations else ():
        p = subprocess.run([exe, "-path", path], cwd=base, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode == 0:
            ctx.violation("scanning %r, which is not there, does not fail" % path, dict(target=path, observed=p.stdout.decode("latin1")[:300]))
    ctx.traces += len(cases)
    ctx.notes["trees"] = len(cases)
    ctx.assumptions += ["the findings are those of TealAnalysis and TealLint; the files of a tree are regular files or links to them",
                        "columns count bytes, so files hold ASCII text"]


def enc_name(p):
    return p.encode("utf-8")


def one(ctx, exe, cwd, target, root, exp, t, ana, at):
    p = subprocess.run([exe, "-path", target], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode != 0:
        return "the scanner exited with %d: %s" % (p.returncode, p.stderr[-300:])
    try:
        rep = json.loads(p.stdout)
    except ValueError as e:
        return "the report is not JSON: %s" % e
    if not isinstance(rep, dict) or rep.get("version") != "2.1.0" or not isinstance(rep.get("runs"), list) or len(rep["runs"]) != 1:
        return "not a SARIF 2.1.0 log with one run"
    run = rep["runs"][0]
    drv = (run.get("tool") or {}).get("driver") or {}
    ids = [x.get("id") for x in drv.get("rules") or []]
    if not isinstance(drv.get("name"), str) or not drv["name"]:
        return "no tool name"
    for x in drv.get("rules") or []:
        for k in ("shortDescription", "fullDescription", "help"):
            if k in x and not (isinstance(x[k], dict) and isinstance(x[k].get("text"), str) and x[k]["text"]):
                return "rule %s has a %s without a text" % (x.get("id"), k)
    if len(set(ids)) != len(ids) or not set(RULES) <= set(ids):
        return "declared rules %s, expected %s" % (ids, RULES)
    arts, res = run.get("artifacts"), run.get("results")
    if not isinstance(arts, list) or not isinstance(res, list):
        return "artifacts or results are not lists"
    rootb = os.path.abspath(root).encode()

    def where(uri):
        u = urlsplit(uri)
        if u.scheme != "file" or u.query or u.fragment:
            return None
        b = unquote_to_bytes(u.path)
        return b[len(rootb) + 1:].decode("utf-8", "replace") if b.startswith(rootb + b"/") else None
    paths = []
    for a in arts:
        uri = (a.get("location") or {}).get("uri", "")
        w = where(uri)
        if w is None:
            return "artifact %r is not in the tree" % uri
        paths.append(w)
    if len(set(paths)) != len(paths) or set(paths) != exp[0]:
        return "artifacts %s, expected %s" % (sorted(paths), sorted(exp[0]))
    got, msgs = Counter(), Counter()
    for q in res:
        if q.get("ruleId") not in ids:
            return "undeclared rule %r" % q.get("ruleId")
        if q.get("ruleIndex") is not None and ids[q["ruleIndex"]] != q["ruleId"]:
            return "rule index %s is not %s" % (q["ruleIndex"], q["ruleId"])
        ls = q.get("locations")
        if not isinstance(ls, list) or len(ls) != 1:
            return "a result with %s locations" % (len(ls) if isinstance(ls, list) else "no")
        ph = ls[0]["physicalLocation"]
        w = where(ph["artifactLocation"].get("uri", ""))
        idx = ph["artifactLocation"].get("index", -1)
        if not isinstance(idx, int) or not 0 <= idx < len(paths) or paths[idx] != w:
            return "a result in %s with artifact index %s (%s)" % (w, idx, paths[idx] if isinstance(idx, int) and 0 <= idx < len(paths) else "none")
        reg = ph["region"]
        got[(w, q["ruleId"], q.get("level"), reg.get("startLine"), reg.get("startColumn"))] += 1
        msgs[(w, q["ruleId"], reg.get("startLine"), (q.get("message") or {}).get("text"))] += 1
    if got != exp[1]:
        return "results %s, expected %s" % (sorted((got - exp[1]).items(), key=str)[:4], sorted((exp[1] - got).items(), key=str)[:4])
    want = Counter()
    for p, kind, x in t:
        if p in exp[0]:
            for d in ana[at[x]].get("diags", []):
                want[(p, d[0], d[1] + 1, d[5].encode("latin1").decode("utf-8", "replace"))] += 1
    if msgs != want:
        return "messages %s, expected %s" % (sorted((msgs - want).items(), key=str)[:4], sorted((want - msgs).items(), key=str)[:4])
    return None
