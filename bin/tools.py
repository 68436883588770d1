"""C29: the command-line helpers, against MCAnalysis and MCVm."""
import gens as G
from vlib import *
from analysis import enc, show, run_pair, long_program
import machine
from concurrent.futures import ThreadPoolExecutor

SEV = {1: "error", 2: "warn", 3: "info"}
TYPE = {"V": "Value", "E": "EOL", "C": "Comment"}


def texts(ctx):
    r = ctx.rng
    out = ["", "\n", "int 1", "b x", "//", "a:\nb a\n", "\r\n\r\n", '"', 'byte "a\n"b', "  \t", "%d\n%s", "byte \"%s\"", "int 1 // c", "a: b: // x\n//y\r"]
    for _ in range(120 if ctx.quick else 1500):
        out.append(G.join([G.spaced(l, r) for l in G.any_program(r)], r))
    for _ in range(60 if ctx.quick else 800):
        out.append(G.lex_text(r).decode("latin1"))
    for k in (300, 520) if ctx.quick else (300, 520, 1030):
        out.append(G.join([G.spaced(l, r) for l in long_program(r, r.randrange(k, k + 80))], r))
    out.append("int %s\nbyte \"%s\" // %s\n%s" % ("1" * 1100, "a b" * 900, "c " * 1400, "\n" * 700))
    out.append("\n".join(r.choice(['byte "a', '"', 'int 1 "x y', 'int 1', 'b "\\']) for _ in range(r.randrange(600, 700))))
    ok = lambda c: 31 < ord(c) < 127 or c in "\t\r\n"
    return [t.encode() for t in dict.fromkeys("".join(c for c in t if ok(c)) for t in map(lambda t: t.decode("latin1") if isinstance(t, bytes) else t, out))]


def call(exe, path, limit=60):
    try:
        p = subprocess.run([exe, "-path", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, b"", b"timed out"


def check(ctx):
    exe = {n: ctx.build_cmd("./debug/" + n, n) for n in ("tokenize", "lint", "interpret")}
    ts = texts(ctx)
    spec, real = run_pair(ctx, ts, False, ["diags"])
    d = os.path.join(ctx.dir, "texts")
    os.makedirs(d)
    paths = []
    for i, t in enumerate(ts):
        paths.append(os.path.join(d, "t%d%s" % (i, ctx.rng.choice([".teal", "", ".txt", " x.teal"]))))
        open(paths[-1], "wb").write(t)
    with ThreadPoolExecutor(NCPU) as ex:
        tok = list(ex.map(lambda p: call(exe["tokenize"], p), paths))
        lint = list(ex.map(lambda p: call(exe["lint"], p), paths))
    for i, t in enumerate(ts):
        s = spec[i]
        det = dict(source=show(t))
        want = ["%d:%d:%d: %s" % (l + 1, b + 1, e + 1, TYPE[k]) + ("" if k == "E" else " = " + v) for k, l, b, e, v in s["toks"]]
        c, out, err = tok[i]
        ls = out.decode("latin1").split("\n")
        n = len([x for x in s["diags"] if x[0] == "SYNTAX"])
        if c != 0:
            ctx.violation("tokenize on %r ends with %s: %s" % (show(t)[:200], c, err[-200:]), det)
            continue
        if ls[:len(want)] != want or len(ls) != len(want) + n + 1:
            ctx.violation("tokenize on %r prints %r, expected %r and %d errors" % (show(t)[:200], ls[:8], want[:8], n), dict(det, observed=ls, expected=want))
            continue
        c, out, err = lint[i]
        if c != 0:
            ctx.violation("lint on %r ends with %s: %s" % (show(t)[:200], c, err[-200:]), det)
            continue
        want = sorted("%d:%d-%d:%s" % (l, b, e, SEV[v]) for _, l, b, e, v in s["diags"])
        ls = out.decode("latin1").split("\n")[:-1]
        if sorted(x.split(" ")[0] for x in ls) != want:
            ctx.violation("lint on %r prints %r, expected %r" % (show(t)[:200], ls[:8], want[:8]), dict(det, observed=ls, expected=want))
            continue
        o = real.get(i) or {}
        if "diags" in o:
            full = sorted("%d:%d-%d:%s %s" % (x[1], x[2], x[3], SEV[x[4]], x[5]) for x in o["diags"])
            if sorted(ls) != full:
                ctx.violation("lint on %r prints %r, the analysis says %r" % (show(t)[:200], ls[:8], full[:8]), dict(det, observed=ls, expected=full))
                continue
        if i % 60 == 1:
            ctx.sample(source=show(t), tokens=tok[i][1].decode("latin1"), findings=out.decode("latin1"))
    # programs the machine gets to the end of
    ps = []
    for _ in range(60 if ctx.quick else 600):
        ps.append(machine.flow_text(ctx.rng))
    ps += ["", "int 1", "err", "b x", "a:\nb a", "callsub a\na:\nretsub", "retsub", "pop", "\n\n", "int 1\n" * 1100, "b x\n" + "err\n" * 1100 + "x:", "a:\ncallsub a"]
    ss = ctx.tlc("MCVm", [dict(id=i, src=elems(enc(t)), addrs=G.ADDRS, cmds=[machine.spec_cmd(["run"])], budget=700, cap=40) for i, t in enumerate(ps)], per_shard=20)
    n = 0
    for i, t in enumerate(ps):
        if any(o["what"] != "ok" for o in ss[i]):
            continue
        n += 1
        p = os.path.join(d, "p%d.teal" % i)
        open(p, "wb").write(enc(t))
        c, out, err = call(exe["interpret"], p)
        if c != 0 or out:
            ctx.violation("interpret on %r ends with %s and prints %r: %s" % (t[:200], c, out[:100], err[-200:]), dict(source=t))
    for k in exe:
        c, out, err = call(exe[k], os.path.join(d, "none", "x.teal"))
        if c == 0 or c is None:
            ctx.violation("%s of a file that is not there ends with %s" % (k, c), dict(tool=k))
    ctx.traces += n
    ctx.notes.update(texts=len(ts), programs_run=n)
    ctx.assumptions += ["texts are ASCII; the order of findings is not judged"]
