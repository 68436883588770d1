"""C01..C07: the analysis of a text."""
import itertools, json
from vlib import *
import gens as G

PUBLISHED = {"SYNTAX", "PARSE"} | {"LINT000%d" % i for i in range(1, 9)}


def spec_inputs(texts):
    return [dict(id=i, src=elems(t), addrs=G.ADDRS) for i, t in enumerate(texts)]


def run_pair(ctx, texts, fine, want=None, repeat=0, cfg=None):
    spec = ctx.tlc1("MCAnalysis", spec_inputs(texts), env={"TLA_FINE": "1" if fine else "0"}, cfg=cfg, one_each=cfg is not None)
    real = ctx.harness([dict(id=i, op="analyze", src=b64(t), want=want or [], repeat=repeat) for i, t in enumerate(texts)])
    if len(spec) != len(texts):
        raise Broken("the specification gave %d results for %d texts" % (len(spec), len(texts)))
    ctx.traces += len(texts)
    return spec, real


def bad(o):
    for k in ("panic", "crash", "timeout", "unstable"):
        if k in o:
            return "%s: %s" % (k, o[k])
    return None


# ---------------------------------------------------------------- projections
def rtoks(ts):
    return [[t[0], t[1], t[2], t[3], spelled(t[4])] for t in ts]


def rlist(o):
    return [real_entry(e) for e in o["list"]]


def slist(o):
    return [spec_entry(e) for e in o["list"]]


def rdiags(o, rules):
    return sorted([d[:5] for d in o["diags"] if d[0] in rules])


def sdiags(o, rules):
    return sorted([list(d) for d in o["diags"] if d[0] in rules])


def numbers(s):
    return [x for x in re.findall(r"\d+", s)]


def rsyms(o):
    return [[spelled(s[0]), s[1], s[2], s[3], spelled(s[4]), numbers(s[5])] for s in o["syms"]]


def ssyms(o):
    return [[s[0], s[1], s[2], s[3], "\n".join(s[4]), list(s[5])] for s in o["syms"]]


def counts(names):
    d = {}
    for n in names:
        d[n] = d.get(n, 0) + 1
    return d


def project(prop, o, spec):
    """what the property talks about"""
    D = sdiags if spec else rdiags
    if prop == "C01":
        return dict(tokens=[list(t) for t in o["toks"]] if spec else rtoks(o["toks"]),
                    errors=sorted(list(d[1:3]) for d in o["diags"] if d[0] == "SYNTAX"))
    if prop == "C02":
        l = slist(o) if spec else rlist(o)
        return dict(lines=len(l), empty=[i for i, e in enumerate(l) if e[0] == ""])
    if prop == "C03":
        return dict(listing=slist(o) if spec else rlist(o), parse=D(o, {"PARSE"}))
    if prop == "C04":
        return dict(rules=D(o, {"LINT0007", "LINT0008"}), required=sorted(list(v) for v in o["vers"]),
                    version=o["ver"], mode=("sig" if o["mode"] in (2, "sig") else "app"),
                    parse=D(o, {"PARSE"}), listing=slist(o) if spec else rlist(o))
    if prop == "C05":
        t = (lambda ts: [list(x) for x in ts]) if spec else rtoks
        refc = counts(o["refc"]) if spec else {spelled(k): n for k, n in o["refc"] if n}
        return dict(symbols=ssyms(o) if spec else rsyms(o), references=t(o["refs"]), missing=t(o["miss"]), counts=refc)
    if prop == "C06":
        return dict(rules=D(o, {"LINT0001", "LINT0002", "LINT0005"}), redundant=sorted(o["red"] if spec else [r[0] for r in o["red"]]))
    if prop == "C07":
        return dict(rules=D(o, {"LINT0003", "LINT0004", "LINT0005", "LINT0006"}),
                    redundant=sorted(o["red"] if spec else [r[0] for r in o["red"]]))


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, list) and isinstance(y, list):
                dx = [v for v in x if v not in y][:4]
                dy = [v for v in y if v not in x][:4]
                return "%s: expected %s, got %s" % (k, dx or len(x), dy or len(y))
            return "%s: expected %s, got %s" % (k, x, y)
    return None


def show(t):
    return t.decode("latin1")


def compare(ctx, prop, texts, spec, real):
    for i, t in enumerate(texts):
        o = real.get(i)
        if o is None or "skipped" in o:
            continue
        w = bad(o)
        if w:
            ctx.violation("analysing %r: %s" % (show(t)[:200], w[:300]), dict(source=show(t), observed=w))
            continue
        a, b = project(prop, spec[i], True), project(prop, o, False)
        d = differ(a, b)
        if d:
            ctx.violation("%r: %s" % (show(t)[:200], d), dict(source=show(t), expected=a, observed=b))
        elif i % max(1, len(texts) // 5) == 0:
            ctx.sample(source=show(t), agreed=json.dumps(a)[:500])


# ---------------------------------------------------------------- inputs
def enc(s):
    return s.encode("utf-8") if isinstance(s, str) else s


def texts_c01(ctx):
    r = ctx.rng
    A = ["a", '"', "\\", "/", " ", "\n", "\r"]
    out = ["".join(t).encode() for t in G.exhaustive(A, 4 if ctx.quick else 5)]
    if not ctx.quick:
        B = ['"', "\\", "//", "\n", "x "]
        out += ["".join(t).encode() for t in itertools.product(B, repeat=6)]
        B = ['"', "\\", "a", '\n']
        out += ["".join(t).encode() for t in itertools.product(B, repeat=7)]
    n = 1500 if ctx.quick else 20000
    out += [G.lex_text(r) for _ in range(n)]
    out += [enc(G.join(G.any_program(r, 6), r)) for _ in range(100 if ctx.quick else 1500)]
    # one literal per possible content of three characters
    L = ["a", "\\", '\\"', " ", "//", "\t", "é"]
    out += [('byte "%s"%s' % ("".join(t), e)).encode() for t in itertools.product(L, repeat=3) for e in ("", " x", "\nint 1")]
    ctx.notes["exhaustive"] = "all texts up to %d characters over %s" % (4 if ctx.quick else 5, A)
    return out


def shape_programs(ctx, shapes, n, cap):
    """all line sequences up to n, the longest ones sampled down to cap"""
    out = []
    for k in range(1, n + 1):
        total = len(shapes) ** k
        if total <= cap:
            out += list(itertools.product(shapes, repeat=k))
        else:
            out += [tuple(ctx.rng.choice(shapes) for _ in range(k)) for _ in range(cap)]
    return out


def op_lines(ctx, per_op):
    """every instruction, every operand position with every word of its kind"""
    r = ctx.rng
    out = []
    for op in G.OPN:
        imm = G.OPS[op]["imm"]
        kinds = [m["k"] for m in imm]
        out += [op, op + " 1", op + " a b", op + " //c"]
        for i, im in enumerate(imm):
            base = lambda: [G.good(k, r) for k in kinds]
            if per_op:
                ws = [r.choice(G.words(im["k"])) for _ in range(per_op)]
            else:
                ws = G.words(im["k"]) + G.JUNK
            for w in ws:
                x = base()
                x[i] = w
                if im["opt"] or im["arr"]:
                    x = x[:i + 1]
                out.append(" ".join([op] + x))
                if im["arr"] and r.random() < 0.5:
                    y = x + [r.choice(G.words(im["k"])) for _ in range(r.randrange(1, 4))]
                    out.append(" ".join([op] + y))
        for _ in range(2 if per_op else 12):
            out.append(G.messy_line(op, r))
            out.append(G.good_line(op, r))
    return out


def chunk(ctx, lines, n, head):
    out = []
    for i in range(0, len(lines), n):
        out.append(enc("\n".join([head(ctx.rng)] + lines[i:i + n])))
    return out


def texts_c03(ctx):
    r = ctx.rng
    lines = op_lines(ctx, 6 if ctx.quick else 0)
    r.shuffle(lines)
    head = lambda q: q.choice(["#pragma version 10", "#pragma version 10", "#pragma version 9", "#pragma version 8", "// x",
                               "#pragma version 18446744073709551615", "#pragma version 5"])
    out = chunk(ctx, lines, 10, head)
    # operand words of one instruction per kind, one per line, all words
    byk = {}
    for op in G.OPN:
        for im in G.OPS[op]["imm"]:
            byk.setdefault(im["k"], []).append(op)
    for k in sorted(byk):
        for op in (r.sample(byk[k], 1) if ctx.quick else sorted(set(byk[k]))[:6]):
            kinds = [m["k"] for m in G.OPS[op]["imm"]]
            i = kinds.index(k)
            ls = []
            for w in G.words(k):
                x = [G.good(q, r) for q in kinds]
                x[i] = w
                ls.append(" ".join([op] + (x[:i + 1] if G.OPS[op]["imm"][i]["arr"] or G.OPS[op]["imm"][i]["opt"] else x)))
            out += chunk(ctx, ls, 12, lambda q: "#pragma version 10")
    out += [enc(l) for l in r.sample(lines, 150 if ctx.quick else 1500)]
    out += [enc(G.join(G.any_program(r), r)) for _ in range(150 if ctx.quick else 3000)]
    out += [enc("#pragma version 10\n" + G.messy_line(r.choice(G.OPN), r) + "\nint 1\nbyte 0x00 0x01\nint x\nint 2") for _ in range(60 if ctx.quick else 1000)]
    for w in ["foo", "#pragma", "#pragma x", "#pragma version", "#pragma version 0", "#pragma version 1 2 3", "foo 1 2", ":", "Int 1", "#", "//", '"x"', '"x', "b:", "::"]:
        out.append(enc(w + "\nint 1\n"))
        out.append(enc("int 1\n  " + w + " // c"))
    return out


def texts_c04(ctx):
    r = ctx.rng
    out = []
    versions = list(range(1, 12))
    heads = [("#pragma version %d" % v) for v in versions] + ["// none"]
    modes = ["// app", "// #pragma mode logicsig"]
    lines = [G.good_line(op, r) for op in G.OPN]
    for h in heads:
        for m in modes:
            hs = [h, m] if r.random() < 0.5 else [m, h]
            ls = list(lines)
            for i in range(0, len(ls), 31):
                out.append(enc("\n".join(hs + ls[i:i + 31])))
    for c in G.NEAR_MODE:
        for l in ("arg 0", "log", "app_global_get", "arg_3"):
            out.append(enc("\n".join(r.choice([["#pragma version 8", c, l], [c, "#pragma version 8", l], ["#pragma version 8", "// #pragma mode logicsig", c, l]]))))
    # every named field in every instruction that takes one, over the versions
    fops = []
    for op in G.OPN:
        for i, im in enumerate(G.OPS[op]["imm"]):
            k = "txn" if im["k"] in ("txn", "txna", "itxn") else im["k"]
            if k in G.FIELDS:
                fops.append((op, i, k))
    vs = versions if not ctx.quick else None
    allf = []
    for op, i, k in fops:
        for f in G.FIELDS[k]:
            w = [G.good(m["k"], r) for m in G.OPS[op]["imm"]]
            w[i] = f["name"]
            n = len(w)
            if G.OPS[op]["imm"][-1]["opt"] and n > i + 1 and r.random() < 0.7:
                w = w[:i + 1]
            crit = sorted({max(1, v + d) for v in (f["ver"], f["itx"], G.OPS[op]["app"]) if v for d in (-1, 0)} | {1, 10})
            for v in (vs or crit):
                allf.append((v, " ".join([op] + w)))
    byv = {}
    for v, l in allf:
        byv.setdefault(v, []).append(l)
    for v, ls in sorted(byv.items()):
        r.shuffle(ls)
        if ctx.quick:
            ls = ls[:900]
        for i in range(0, len(ls), 25):
            out.append(enc("\n".join(["#pragma version %d" % v] + ls[i:i + 25])))
    # versions and modes that change along the program
    for _ in range(250 if ctx.quick else 4000):
        ls = []
        for _ in range(r.randrange(2, 12)):
            c = r.random()
            if c < 0.2:
                ls.append(G.pragma(r))
            elif c < 0.35:
                ls.append(G.comment(r))
            else:
                ls.append(G.spaced(G.good_line(r.choice(G.OPN), r), r))
        out.append(enc(G.join(ls, r)))
    return out


def texts_c05(ctx):
    r = ctx.rng
    out = []
    S = ["a:", "b:", "//x", "b a", "switch a b", "proto 1 2", "", "callsub c", "int 1 // b"]
    for p in shape_programs(ctx, S, 4 if ctx.quick else 5, 1000 if ctx.quick else 7000):
        out.append(enc("\n".join(p)))
    for _ in range(500 if ctx.quick else 6000):
        ls = []
        names = r.choice([["a"], ["a", "b"], G.LABELS, ["a", "aa", "aaa"], ["A", "a"]])
        for _ in range(r.randrange(1, 14)):
            c = r.random()
            L = lambda: r.choice(names)
            if c < 0.25:
                l = L() + ":" + r.choice(["", "", "", " x", " // c", " // #pragma mode logicsig"])
            elif c < 0.45:
                l = r.choice(["// doc", "//  two words", "//", "// #pragma mode logicsig", "//\tq"])
            elif c < 0.6:
                l = r.choice(["b", "bz", "bnz", "callsub"]) + " " + L() + r.choice(["", "", "", " y", " // c"])
            elif c < 0.72:
                l = " ".join([r.choice(["switch", "match"])] + [L() for _ in range(r.randrange(5))])
            elif c < 0.84:
                l = r.choice(["proto 1 2", "proto 0 0", "proto 255 1", "proto 1", "proto 1 256", "proto 3 4 5"])
            elif c < 0.9:
                l = r.choice(["", "int 1", "b", "callsub", "bz", "int x", "foo", "#pragma version 8"])
            else:
                l = G.good_line(r.choice(G.OPN), r, names)
            ls.append(G.spaced(l, r))
        out.append(enc(G.join(ls, r)))
    out += [enc(G.join(G.any_program(r), r)) for _ in range(150 if ctx.quick else 2000)]
    return out


def texts_flow(ctx, shapes, n, cap, rnd):
    r = ctx.rng
    out = [enc("\n".join(p)) for p in shape_programs(ctx, shapes, n, cap)]
    for _ in range(rnd):
        out.append(enc(G.join([G.spaced(l, r) for l in G.flow_program(r)], r)))
    for _ in range(rnd // 5):
        out.append(enc(G.join(G.any_program(r), r)))
    return out


def texts_c06(ctx):
    S = ["a:", "b:", "b a", "bz b", "callsub c", "switch a b", "match c c", "int 1", ""]
    return texts_flow(ctx, S, 4 if ctx.quick else 5, 1000 if ctx.quick else 60000 // 8, 700 if ctx.quick else 8000)


def texts_c07(ctx):
    S = ["a:", "b:", "b a", "b b", "bz a", "return", "retsub", "int 1", "", "#pragma version 2"]
    return texts_flow(ctx, S, 4 if ctx.quick else 5, 1400 if ctx.quick else 60000 // 6, 900 if ctx.quick else 8000)


def texts_c02(ctx):
    r = ctx.rng
    out = [G.lex_text(r) for _ in range(500 if ctx.quick else 8000)]
    out += [enc(G.join(G.any_program(r), r)) for _ in range(500 if ctx.quick else 8000)]
    W = ["int", " 1", " x", "\n", "\r", "//c", "a:", '"', "b a", "#pragma version 2", " 2", "\t", "err", ":"]
    out += [enc("".join(r.choice(W) for _ in range(r.randrange(1, 10)))) for _ in range(600 if ctx.quick else 9000)]
    A = ["int", " 1", " x", "\n", "a:", '"', "//"]
    out += [enc("".join(t)) for t in G.exhaustive(A, 3 if ctx.quick else 5)]
    # deep and wide texts (termination, no quadratic blow-up into a time-out)
    return out


def long_texts(ctx):
    r = ctx.rng
    return [b"\n" * 3000, b"int 1\n" * 3000, b"a" * 60000, b'"' * 20001, b"\\" * 20000, b"//" + b"x" * 50000,
            b"switch " + b"a " * 5000, b"byte \"" + b"\\x41" * 4000 + b"\"", b"a:\n" * 1500, b"b a\n" * 1500,
            b"pushbytess " + b"0x00 " * 4000, b" " * 50000, b"\r" * 4000, b"b a\na:\n" * 700,
            b"#pragma version 9999999999999999999999\n" * 200, bytes(r.randrange(256) for _ in range(20000))]


def long_program(r, n, labels=None):
    """a program of about n lines with many labels and branches"""
    names = ["l%d" % i for i in range(labels or n // 5)]
    if r.random() < 0.5:
        names = [x + "_" * r.randrange(300) if r.random() < 0.02 else x for x in names]
    ls = ["#pragma version %d" % r.choice([8, 10])]
    todo = list(names)
    if r.random() < 0.5:
        r.shuffle(todo)
    far = r.random() < 0.5
    for i in range(n):
        c = r.random()
        if todo and c < len(todo) / (n - i) + 0.02:
            ls.append(todo.pop() + ":")
            if r.random() < 0.15:
                ls.append("proto %d %d" % (r.randrange(3), r.randrange(3)))
            continue
        k = r.choice(names) if far else names[min(len(names) - 1, max(0, len(names) - len(todo) + r.randrange(-2, 3)))]
        ls.append(r.choice(["int 1", "pop", "b " + k, "bnz " + k, "// c%d" % i, "", "txn Sender", "byte 0x61", "callsub " + k, "retsub", "err",
                            "int 1 2", "foo", "load 256", "dup", "int %d" % i, "switch %s %s" % (k, r.choice(names))]))
    return ls


def texts_large(ctx):
    """long words, lines, listings and tables"""
    r, p = ctx.rng, ctx.prop
    j = lambda ls: enc("\n".join(ls))
    n = lambda a, b: r.randrange(a, b)
    # many open literals, one to a line
    opens = j([r.choice(['byte "a', '"', 'int 1 "x y', 'int 1', 'b "\\']) for _ in range(n(1100, 1300))])
    if p == "C01":
        q = "".join(r.choice(["a", "b ", '\\"', "\\\\", "//", "\t"]) for _ in range(n(2500, 3500)))
        return [enc('byte "%s" x\nint 1' % q), enc('byte "%s\nint 1 "y' % q), enc("int 1 //%s\r\nint 2" % ("c /" * n(1400, 2000))), b"int " + b"1" * n(4100, 6000) + b" x",
                b"switch" + b" a" * n(1100, 2000) + b"\t//", j(long_program(r, n(1030, 1400))), b" " * n(4100, 6000) + b"int 1\n" + b"\t" * n(4100, 5000),
                b"\r\n" * n(1030, 2000) + b"int 1", opens]
    wide = ["#pragma version 8", "a:", "b:", "switch " + " ".join(r.choice("ab") for _ in range(n(257, 500))), "intcblock " + " ".join(str(i) for i in range(n(257, 400))),
            "bytecblock " + " ".join("0x%04x" % i for i in range(n(257, 350))), "match a " + "b " * 300 + "c", "pushbytess " + "b64 QUFB " * n(129, 200), "pushints " + "1 " * 257 + "x",
            "byte 0x" + "61" * n(600, 1200), 'byte "%s"' % ("ab\\x41" * n(300, 500)), "b a"]
    out = [j(wide), opens]
    # labels named only far to the right
    k = n(258, 300)
    out.append(j(["#pragma version 8", "int 1", "switch " + "a " * k + "b c", "match " + "a " * (k + 9) + "d e", "switch " + " ".join("x%d" % i for i in range(k)), "a:", "b:", "err", "c:", "d:", "f:"]
                 + ["x%d:" % i for i in range(k - 20, k)]))
    sizes = [300, 1100] if ctx.quick else [300, 600, 1100, 1300, 1600]
    if p in ("C05", "C06", "C07"):
        sizes.append(n(1200, 1400))
        # one long loop, one long dead part, one long gap before a label
        body = ["int 1"] * n(1010, 1100)
        out.append(j(["a:"] + body + ["b a"]))
        out.append(j(["a:", "b z"] + body[:600] + ["b a", ""] + ["// c"] * 500 + ["a2:", "b a2"]))
        out.append(j(["b a"] + r.choice([["// c"], [""]]) * n(1010, 1100) + ["a:", "bz a"]))
    for k in sizes:
        out.append(j(long_program(r, n(k, k + 60))))
    return out


def check(ctx):
    p = ctx.prop
    texts = {"C01": texts_c01, "C02": texts_c02, "C03": texts_c03, "C04": texts_c04, "C05": texts_c05, "C06": texts_c06,
             "C07": texts_c07}[p](ctx)
    texts = list(dict.fromkeys(texts))
    ctx.notes["texts"] = len(texts)
    fine = True
    spec, real = run_pair(ctx, texts, fine, repeat=1 if p == "C02" else 0)
    compare(ctx, p, texts, spec, real)
    if p == "C01":
        cursor(ctx, texts, spec)
    if p == "C02":
        c02_more(ctx, texts, spec, real)
    big = texts_large(ctx)
    spec, real = run_pair(ctx, big, False, cfg="MCAnalysisBig")
    compare(ctx, p, big, spec, real)
    ctx.notes["large_texts"] = [len(t) for t in big]
    ctx.assumptions += ["the specification's instruction, field and constant tables (spec/TealTables.tla) are the documented language",
                        "validity of account addresses (checksum) is an input of the specification"]


CURSOR = [b"", b" ", b"\n", b"a", b"a b", b"a\n", b"\r\na // c", b'"', b'a "', b'"\n"', b'a "x" //', b"//\n//", b" a\t\r b ", b'"a\nb', b"a b c d\n"]


def cursor(ctx, texts, spec):
    """reading the tokens forth and back, every history of moves"""
    n = 7 if ctx.quick else 9
    pool = [i for i, t in enumerate(texts) if 3 <= len(t) <= 60]
    ts = CURSOR + [texts[i] for i in ctx.rng.sample(pool, min(len(pool), 12 if ctx.quick else 60))]
    hist = ctx.tlc("MCCursor", [dict(id=i, src=elems(t), n=n) for i, t in enumerate(ts)], per_shard=30)
    full = ctx.tlc1("MCAnalysis", spec_inputs(ts), env={"TLA_FINE": "0"})
    real = ctx.harness([dict(id=i, op="cursor", src=b64(t), cmds=[[x["m"] for x in h["h"]] for h in hist[i]]) for i, t in enumerate(ts)])
    for i, t in enumerate(ts):
        o, toks = real[i], full[i]["toks"]
        if bad(o):
            ctx.violation("reading %r: %s" % (show(t), bad(o)), dict(source=show(t)))
            continue
        errs = sum(d[0] == "SYNTAX" for d in full[i]["diags"])
        if o["errs"] != errs:
            ctx.violation("reading %r reports %d errors, expected %d" % (show(t), o["errs"], errs), dict(source=show(t)))
        for h, g in zip(hist[i], o["hs"]):
            ms = [x["m"] for x in h["h"]]
            if "r" in ms and not o["back"]:
                continue
            for k, (x, (ok, tok)) in enumerate(zip(h["h"], g)):
                want = toks[x["at"] - 1] if 1 <= x["at"] <= len(toks) else None
                if ok != x["ok"] or (want and rtoks([tok])[0] != list(want)):
                    ctx.violation("reading %r, moves %s: gives %s %s, expected %s %s" % (show(t), "".join(ms[:k + 1]), ok, tok, x["ok"], want),
                                  dict(source=show(t), moves=ms[:k + 1]))
                    break
        ctx.traces += len(hist[i])


def c02_more(ctx, texts, spec, real):
    # placement of every diagnostic, with published rules
    for i, t in enumerate(texts):
        o = real.get(i)
        if o is None or "skipped" in o or bad(o):
            continue
        lines = re.split(rb"\r\n|\n|\r", t)
        for d in o["diags"]:
            rule, l, b, e = d[:4]
            if rule not in PUBLISHED or not (0 <= l < len(lines)) or not (0 <= b <= e <= len(lines[l])):
                ctx.violation("%r: diagnostic %s is not placed on an existing line, within its columns, with a published rule" % (show(t)[:200], d),
                              dict(source=show(t), diagnostic=d))
    # the same texts in another order, in one process: same results
    order = list(range(len(texts)))
    ctx.rng.shuffle(order)
    again = ctx.harness([dict(id=i, op="analyze", src=b64(texts[i])) for i in order], procs=2)
    for i in order:
        a, b = real.get(i), again.get(i)
        if a is None or b is None or "skipped" in a or "skipped" in b:
            continue
        if a != b:
            ctx.violation("analysing %r after other texts gives another result" % show(texts[i])[:200],
                          dict(source=show(texts[i]), first=a, second=b))
    # large texts: only the implementation; termination and one entry per line
    big = long_texts(ctx)
    out = ctx.harness([dict(id=i, op="analyze", src=b64(t), want=["list", "diags"]) for i, t in enumerate(big)], procs=4)
    for i, t in enumerate(big):
        o = out.get(i, {})
        if "skipped" in o:
            continue
        w = bad(o)
        if w:
            ctx.violation("analysing a text of %d bytes (%r...): %s" % (len(t), show(t)[:60], w[:200]), dict(source=show(t)[:2000], observed=w))
            continue
        lines = re.split(rb"\r\n|\n|\r", t)
        n = len(lines) - (1 if not lines[-1].strip(b" \t") else 0)
        if len(o["list"]) != n and not (lines[-1].lstrip(b" \t").startswith(b'"')):
            ctx.violation("a text of %d bytes (%r...) with %d lines gives %d listing entries" % (len(t), show(t)[:60], n, len(o["list"])),
                          dict(source=show(t)[:2000]))
    ctx.traces += len(order) + len(big)
