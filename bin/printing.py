"""C08: printing a listing."""
import itertools, json
from vlib import *
import gens as G
from analysis import enc, show, bad, chunk, op_lines, rlist, slist, long_program


def literal(bs, r):
    """some notation for the bytes"""
    k = r.randrange(6)
    if k == 0:
        return "0x" + bs.hex()
    if k == 1:
        return "base64 " + base64.b64encode(bs).decode()
    if k == 2:
        return "b64(" + base64.b64encode(bs).decode() + ")"
    if k == 3:
        return "base32 " + base64.b32encode(bs).decode()
    if k == 4:
        return "b32(" + base64.b32encode(bs).decode().rstrip("=") + ")"
    return '"' + "".join(chr(b) if 32 <= b < 127 and b not in (34, 92) and r.random() < 0.9 else "\\x%02x" % b for b in bs) + '"'


def texts(ctx):
    r = ctx.rng
    q = ctx.quick
    out = []
    # every instruction, accepted operands, alone and together
    lines = []
    for op in G.OPN:
        for _ in range(4 if q else 40):
            lines.append(G.good_line(op, r, ["a", "b", "c"]))
        for i, im in enumerate(G.OPS[op]["imm"]):
            k = "txn" if im["k"] in ("txn", "txna", "itxn") else im["k"]
            if k in G.FIELDS:
                for f in (G.FIELDS[k] if not q else r.sample(G.FIELDS[k], min(len(G.FIELDS[k]), 12))):
                    w = [G.good(m["k"], r) for m in G.OPS[op]["imm"]]
                    w[i] = f["name"]
                    if G.OPS[op]["imm"][-1]["opt"] and r.random() < 0.5:
                        w = w[:i + 1]
                    lines.append(" ".join([op] + w))
            else:
                for w1 in (r.sample(G.words(im["k"]), min(6, len(G.words(im["k"])))) if q else G.words(im["k"])):
                    w = [G.good(m["k"], r) for m in G.OPS[op]["imm"]]
                    w[i] = w1
                    lines.append(" ".join([op] + w))
    # every field in some instruction, for all
    r.shuffle(lines)
    # single lines, so that one refused line does not take others out of scope
    out += [enc("#pragma version 10\n" + l) for l in lines]
    # repeated operands of every length
    for op in G.OPN:
        imm = G.OPS[op]["imm"]
        if imm and imm[-1]["arr"]:
            for n in range(0, 8):
                out.append(enc("#pragma version 10\n" + " ".join([op] + [G.good(imm[-1]["k"], r) for _ in range(n)])))
    # byte strings
    vals = [bytes([i]) for i in range(256)] + [bytes([i, j]) for i, j in itertools.product([0, 9, 10, 13, 32, 34, 47, 92, 97, 120, 127, 128, 255], repeat=2)]
    vals += [bytes(r.randrange(256) for _ in range(r.randrange(0, 40))) for _ in range(150 if q else 3000)]
    vals += [bytes(r.choice(b' "\\/anrtx:;()0') for _ in range(r.randrange(0, 8))) for _ in range(150 if q else 3000)]
    bl = [(r.choice(["byte ", "pushbytes ", "pushbytess ", "bytecblock "]) + literal(v, r)) for v in vals]
    bl += ["pushbytess " + " ".join(literal(r.choice(vals), r) for _ in range(r.randrange(1, 5))) for _ in range(60 if q else 1000)]
    bl += ["byte " + w for w in G.BYTES]
    for i in range(0, len(bl), 4):
        out.append(enc("\n".join(["#pragma version 10"] + bl[i:i + 4])))
    out += [enc("#pragma version 10\nbyte " + w) for w in G.BYTES]
    out += [enc("#pragma version 10\nmethod " + w) for w in G.SIGS + ['"a\\\\b()void"', '"f\\x41()void"', '"\\t"', '"a\\\\\\"b"', "\"'\"", '"é"', '"%d %s"']]
    # labels with unusual names
    for n in G.LABELS + ["a:", '"q"', "a\\", "%d", "%s", "100%", "é", "#", "a#b", "\x01", "x//", "base64", "(", "{}"]:
        out.append(enc("#pragma version 8\nb %s\n%s:\nbz %s\nswitch %s a %s\n" % (n, n, n, n, n)))
    # whole programs: blank lines, comments, pragmas, line ends, nothing at the end
    for _ in range(500 if q else 9000):
        ls = []
        if r.random() < 0.8:
            ls.append("#pragma version %d" % r.choice([10, 10, 10, 9, 8, 7, 5, 2, 1]))
        labels = ["a", "b", "c"]
        for _ in range(r.randrange(0, 14)):
            c = r.random()
            if c < 0.45:
                ls.append(G.spaced(G.good_line(r.choice(G.OPN), r, labels), r))
            elif c < 0.75:
                ls.append(G.spaced(G.flow_line(r, labels), r))
            elif c < 0.9:
                ls.append(r.choice(["", " ", "// c", "\t//", "// #pragma mode logicsig", "a: // x", "//a:"]))
            else:
                ls.append("#pragma version %d" % r.randrange(1, 11))
        out.append(enc(G.join(ls, r)))
    out += [b"", b"\n", b"\n\n", b"int 1", b"int 1\n\n\n", b"#pragma version 18446744073709551615\nint 18446744073709551615", b"a:", b"a:\n", b"\r\n"]
    return list(dict.fromkeys(out))


def large(ctx):
    """long words, lines and listings"""
    r, n = ctx.rng, ctx.rng.randrange
    wide = ["#pragma version 10", "switch " + " ".join(r.choice(["a", "b"]) for _ in range(n(257, 500))), "intcblock " + " ".join(str(2 ** 64 - 1 - i) for i in range(n(257, 400))),
            "bytecblock " + " ".join("0x%04x" % i for i in range(n(257, 350))), "match a " + "b " * 300 + "c", "pushbytess " + "b64 QUFB " * n(129, 200), "pushints " + "1 " * 257,
            "byte 0x" + "61" * n(600, 1200), 'byte "%s"' % ("ab\\x41" * n(300, 500)), "b " + "a" * 300, "addr " + G.ADDRS[0]]
    out = ["\n".join(wide)]
    for k in ([1030] if ctx.quick else [300, 1030, 1300]):
        ls = [l for l in long_program(r, n(k, k + 100)) if l not in ("int 1 2", "foo", "load 256")]
        out.append("\n".join(ls))
    return [enc(t) for t in out]


def check(ctx):
    ts = texts(ctx)
    ok = judge(ctx, ts)
    # many lines that are in scope by themselves
    one = [ts[i].split(b"\n")[1] for i in ok if ts[i].startswith(b"#pragma version 10\n") and ts[i].count(b"\n") == 1 and ts[i].count(b"#pragma") == 1]
    big = large(ctx)
    for k in [1030] if ctx.quick else [300, 1030, 1300]:
        big.append(b"\n".join([b"#pragma version 10"] + [ctx.rng.choice(one) for _ in range(k)]))
    ctx.notes["large_in_scope"] = len(judge(ctx, big, one_each=True))
    ctx.notes.update(texts=len(ts), in_scope=len(ok))
    if len(ok) < len(ts) // 3:
        raise Broken("only %d of %d texts in scope" % (len(ok), len(ts)))
    ctx.assumptions += ["fields given by number that do not exist, or not in that version or context, are out of scope (they are printed by name)"]


def judge(ctx, ts, one_each=False):
    """prints and re-reads the texts; the numbers of those in scope"""
    real = ctx.harness([dict(id=i, op="print", src=b64(t)) for i, t in enumerate(ts)])
    recs = []
    for i, t in enumerate(ts):
        o = real.get(i)
        if o is None or "skipped" in o:
            continue
        w = bad(o)
        if w:
            ctx.violation("printing %r: %s" % (show(t)[:200], w[:300]), dict(source=show(t), observed=w))
            continue
        recs.append(dict(id=i, src=elems(t), printed=elems(base64.b64decode(o["text"])), addrs=G.ADDRS))
    spec = ctx.tlc1("MCPrint", recs, one_each=one_each)
    scope = []
    n = 0
    for rec in recs:
        i = rec["id"]
        s, o, t = spec[i], real[i], ts[i]
        if not s["scope"]:
            continue
        n += 1
        scope.append(i)
        printed = base64.b64decode(o["text"])
        det = dict(source=show(t), printed=show(printed))
        if not s["ok"]:
            ctx.violation("%r is printed as %r, which is not the same program from line %d on" % (show(t)[:200], show(printed)[:200], s["line"]), det)
            continue
        if [real_entry(e) for e in o["list"]] != slist(s):
            ctx.violation("%r is read with other operands than written" % show(t)[:200], dict(det, observed=o["list"]))
        elif [real_entry(e) for e in o["list2"]] != [real_entry(e) for e in o["list"]]:
            ctx.violation("%r is printed as %r, which the analysis reads differently" % (show(t)[:200], show(printed)[:200]), dict(det, observed=o["list2"]))
        elif any(d[0] in ("PARSE", "SYNTAX") for d in o["diags2"]):
            ctx.violation("%r is printed as %r, which is rejected: %s" % (show(t)[:200], show(printed)[:200], o["diags2"][:2]), det)
        elif o["text2"] != o["text"]:
            ctx.violation("%r: printing again gives another text" % show(t)[:200], dict(det, second=show(base64.b64decode(o["text2"]))))
        elif n % 500 == 1:
            ctx.sample(**det)
    ctx.traces += n
    return scope
