"""C27: programs composed in Go, against MCBuild."""
import json, re
import gens as G
from vlib import *
from analysis import spec_entry

READY = re.findall(r'"(\w+)" :> "', open(os.path.join(SPEC, "TealBuild.tla")).read())
LS = ["a", "b", "main", "l1", "x_y"]
U64 = ["0", "1", "2", "255", "256", "65536", "4294967296", "9223372036854775808", "18446744073709551615"]
TXN, GLB = G.FIELDS["txn"], G.FIELDS["global"]


def u8(r):
    return str(r.choice([0, 1, 2, 7, 127, 128, 255]))


def fields(k):
    ok = dict(txn=lambda f: True, gtxns=lambda f: True, itxn_field=lambda f: f["itx"] > 0, txna=lambda f: f["arr"])
    return [str(i) for i, f in enumerate(TXN) if ok[k](f)]


def lab(n):
    return dict(n=n, b=list(n.encode()))


def leaf_kinds():
    return ["ready", "text", "pragma", "label", "int", "string", "comment", "b", "bz", "bnz", "callsub", "match", "switch", "load", "store",
            "cover", "uncover", "frame_dig", "proto", "txn", "gtxns", "itxn_field", "txna", "apparg", "global", "callfunc"]


def text_node(line):
    t = "#pragma version 10\n" + line
    return dict(k="text", t=b64(t), src=elems(t.encode()))


def leaf(r, k=None):
    k = k or r.choice(leaf_kinds()[:-1] + ["ready"] * 4 + ["int"] * 2 + ["label", "b"])
    n = dict(k=k)
    if k == "ready":
        n["n"] = r.choice(READY)
    elif k == "text":
        op = r.choice([o for o in G.OPN if o != "addr"])
        return text_node(G.good_line(op, r, LS))
    elif k == "pragma":
        n["v"] = r.choice(["2", "5", "8", "10", "10"])
    elif k in ("label", "b", "bz", "bnz", "callsub", "callfunc"):
        n["n"] = r.choice(LS)
    elif k == "int":
        n["v"] = r.choice(U64 + [str(r.randrange(0, 10 ** 6))])
    elif k == "string":
        n["b"] = string(r)
    elif k == "comment":
        c = r.choice(["", " x", "int 1", " #pragma version 3", "/", " a: b", '"', " %d %s", "\t"])
        n.update(t=b64(c))
    elif k in ("match", "switch"):
        n["ls"] = [lab(r.choice(LS)) for _ in range(r.randrange(0, 5))]
    elif k in ("load", "store", "cover", "uncover", "apparg"):
        n["v"] = u8(r)
    elif k == "frame_dig":
        n["v"] = str(r.choice([-128, -2, -1, 0, 1, 5, 127]))
    elif k == "proto":
        n["v"], n["w"] = u8(r), u8(r)
    elif k in ("txn", "gtxns", "itxn_field"):
        n["v"] = r.choice(fields(k))
    elif k == "txna":
        n["v"], n["w"] = r.choice(fields(k)), u8(r)
    elif k == "global":
        n["v"] = str(r.randrange(len(GLB)))
    return n


def string(r):
    c = r.random()
    if c < 0.3:
        return list(r.choice([b"", b"a", b"hello world", b"//", b"a//b", b"b64(", b" ", b"  a ", b"0x00", b"'", b";", b"%s%d%%", b":"]))
    if c < 0.7:
        return [r.choice(b'a"\\n\n\r\t /xb') for _ in range(r.randrange(0, 6))]
    return [r.randrange(256) for _ in range(r.randrange(0, 6))]


COMPOSED = ["block", "named", "list", "program", "listing", "plus", "minus", "asserteq", "assertlteq", "assertlen", "assertinrange", "matchlabels",
            "itxn", "call"]


class Maker:
    def __init__(self, r):
        self.r = r
        self.defs = []
        self.funcs = 0

    def expr(self, d, k=None):
        r = self.r
        if k is None and self.defs and r.random() < 0.12:
            return dict(k="ref", v=str(r.randrange(len(self.defs)) + 1))
        if k is None and (d <= 0 or r.random() < 0.3):
            return leaf(r)
        k = k or r.choice(COMPOSED + ["func"])
        n = dict(k=k)
        some = lambda lo, hi: [self.expr(d - 1) for _ in range(r.randrange(lo, hi))]
        if k in ("block", "list", "program", "listing", "itxn"):
            n["xs"] = some(0, 4)
        elif k == "named":
            n.update(n=r.choice(LS), xs=some(0, 4))
        elif k in ("plus", "minus", "asserteq", "assertlteq"):
            n["xs"] = some(2, 3)
        elif k == "assertlen":
            n.update(xs=some(1, 2), v=r.choice(U64))
        elif k == "assertinrange":
            n.update(xs=some(1, 2), v=r.choice(U64), w=r.choice(U64))
        elif k == "matchlabels":
            n.update(xs=some(1, 2), ls=[lab(r.choice(LS)) for _ in range(r.randrange(0, 4))])
        elif k == "call":
            n.update(n=r.choice(LS + ["f0", "f1"]), xs=some(0, 4))
        elif k in ("func", "declared"):
            n.update(n="f%d" % self.funcs, ps=[leaf(r, "proto")] if r.random() < 0.5 else [])
            self.funcs += 1
            if k == "func":
                n["xs"] = some(0, 4)
        return n

    def record(self, roots):
        return dict(defs=self.defs, roots=roots)


def records(ctx):
    r = ctx.rng
    out = []
    # every constructor of a leaf, with every value of its operand
    ls = [dict(k="ready", n=n) for n in READY]
    ls += [dict(k=k, v=v) for k in ("txn", "gtxns", "itxn_field") for v in fields(k)]
    ls += [dict(k="txna", v=v, w=u8(r)) for v in fields("txna")] + [dict(k="global", v=str(v)) for v in range(len(GLB))]
    ls += [dict(k="int", v=v) for v in U64] + [dict(k=k, v=str(v)) for k in ("load", "store", "cover", "uncover", "apparg") for v in (0, 1, 9, 10, 127, 128, 200, 255)]
    ls += [dict(k="frame_dig", v=str(v)) for v in (-128, -100, -1, 0, 1, 100, 127)] + [dict(k="proto", v=str(a), w=str(b)) for a, b in ((0, 0), (1, 2), (255, 3), (4, 255))]
    ls += [dict(k="string", b=[i]) for i in range(256)] + [dict(k="string", b=[i, j]) for i in b'"\\nx\n /' for j in b'"\\nx\n /']
    ls += [dict(k=k, ls=[lab(LS[i % 3]) for i in range(n)]) for k in ("match", "switch") for n in range(0, 6)]
    ls += [dict(k=k, n=n) for k in ("b", "bz", "bnz", "callsub", "callfunc", "label") for n in LS]
    ls += [text_node(G.good_line(op, r, LS)) for op in G.OPN if op != "addr"]
    for n in ls:
        out.append(dict(defs=[], roots=[dict(k="list", xs=[dict(k="pragma", v="10"), n])]))
    # every composed expression around every other
    for k in COMPOSED + ["func", "declared"]:
        for k2 in COMPOSED + ["func", "declared", "int"]:
            m = Maker(r)
            e = m.expr(1, k)
            inner = leaf(r, "int") if k2 == "int" else m.expr(1, k2)
            if e.get("xs"):
                e["xs"][r.randrange(len(e["xs"]))] = inner
            elif "xs" in e:
                e["xs"] = [inner]
            out.append(m.record([dict(k="list", xs=[dict(k="pragma", v="10"), e])]))
    # a part of any kind at the very start, shared by several programs that go on differently
    for outer in ("list", "program", "block", "listing"):
        for k in ("list", "program", "block", "listing", "named", "itxn", "func"):
            m = Maker(r)
            n = dict(k=k, xs=[dict(k="pragma", v="10")] + [leaf(r) for _ in range(r.randrange(0, 4))])
            if k in ("named", "func"):
                n.update(n="f0" if k == "func" else "a", ps=[])
            m.defs.append(n)
            me = dict(k="ref", v="1")
            out.append(m.record([dict(k=outer, xs=[me] + [leaf(r) for _ in range(r.randrange(0, 3))] + [me] * r.randrange(0, 2)) for _ in range(4)] + [me]))
    # anything, with shared parts; the parts are compiled again afterwards
    for _ in range(700 if ctx.quick else 12000):
        m = Maker(r)
        for _ in range(r.randrange(0, 3)):
            m.defs.append(m.expr(2))
        root = dict(k=r.choice(["list", "program", "block"]), xs=([dict(k="pragma", v="10")] if r.random() < 0.8 else []) + [m.expr(r.choice([1, 2, 3])) for _ in range(r.randrange(0, 5))])
        m.defs.append(root)
        me = dict(k="ref", v=str(len(m.defs)))
        roots = [me] + [dict(k="list", xs=[dict(k="pragma", v="10"), dict(k="ref", v=str(i + 1))]) for i in range(len(m.defs) - 1)] + [me]
        out.append(m.record(roots))
    # large ones
    m = Maker(r)
    many = [leaf(r) for _ in range(r.randrange(300, 340))]
    deep = leaf(r, "int")
    for i in range(r.randrange(100, 110)):
        deep = dict(k=r.choice(["block", "list"]), xs=[deep] + ([leaf(r, "int")] if i % 40 == 0 else []))
    for n in (dict(k="list", xs=many), dict(k="block", xs=many[:270]), dict(k="call", n="f0", xs=many[:140]), deep,
              dict(k="string", b=[r.choice(b'ab"\\\n/ ') for _ in range(r.randrange(1030, 1300))]),
              dict(k="match", ls=[lab(LS[i % 3]) for i in range(260)]), dict(k="switch", ls=[lab(LS[i % 3]) for i in range(257)]),
              dict(k="list", xs=[dict(k="label", n="l%d" % i) for i in range(300)] + [dict(k="b", n="l%d" % r.randrange(320)) for _ in range(20)]),
              dict(k="itxn", xs=[leaf(r, "int") for _ in range(140)])):
        out.append(dict(defs=[], roots=[dict(k="list", xs=[dict(k="pragma", v="10"), n])]))
    return out


def strip(n, drop):
    if isinstance(n, list):
        return [strip(x, drop) for x in n]
    if isinstance(n, dict):
        return {k: strip(v, drop) for k, v in n.items() if k not in drop}
    return n


def check(ctx):
    rs = records(ctx)
    real = ctx.harness([dict(id=i, **strip(x, ("src",))) for i, x in enumerate(rs)], source="build/main.go")
    recs, at = [], []
    for i, x in enumerate(rs):
        o = real.get(i)
        if o is None or "skipped" in o:
            continue
        if "roots" not in o:
            raise_or(ctx, x, o.get("panic") or o.get("crash"))
            continue
        for j, root in enumerate(x["roots"]):
            q = o["roots"][j]
            if "panic" in q:
                raise_or(ctx, dict(defs=x["defs"], root=root), q["panic"])
                continue
            recs.append(dict(id=len(at), defs=strip(x["defs"], ("t",)), root=strip(root, ("t",)), text=elems(base64.b64decode(q["text"]))))
            at.append((x, root, q))
    spec = ctx.tlc1("MCBuild", recs, per_shard=150)
    n = 0
    for rec in recs:
        s, (x, root, q) = spec[rec["id"]], at[rec["id"]]
        text = base64.b64decode(q["text"])
        det = dict(defs=strip(x["defs"], ("src",)), expression=strip(root, ("src",)), printed=text.decode("latin1"), expected=[spec_entry(e) for e in s["list"]])
        what = json.dumps(det["expression"])[:200]
        ops = [base64.b64decode(b) for b in q["ops"]]
        if len(ops) != len(s["list"]):
            ctx.violation("%s compiles to %d instructions, not %d" % (what, len(ops), len(s["list"])), dict(det, observed=[o.decode("latin1") for o in ops]))
        elif b"".join(o + b"\n" for o in ops) != text or base64.b64decode(q["program"]) != text:
            ctx.violation("%s is not printed one instruction a line: %r" % (what, text[:200]), dict(det, observed=[o.decode("latin1") for o in ops], program=base64.b64decode(q["program"]).decode("latin1")))
        elif sorted(map(tuple, q["lint"])) != sorted(map(tuple, s["lint"])):
            ctx.violation("%s: the linter says %s, not %s" % (what, sorted(q["lint"])[:6], sorted(s["lint"])[:6]), dict(det, observed=q["lint"], lint=s["lint"]))
        elif not s["scope"]:
            continue
        elif not s["same"]:
            ctx.violation("%s is printed as %r, another program from line %d on" % (what, text[:200], s["line"]), det)
        elif n % 300 == 1:
            ctx.sample(printed=det["printed"], expression=what)
        n += 1
    ctx.traces += n
    ctx.notes.update(expressions=len(recs), in_scope=n)
    if n < len(recs) // 2:
        raise Broken("only %d of %d expressions in scope" % (n, len(recs)))
    ctx.assumptions += ["label names are words; comments are of one line; fields exist in the version in force"]


def raise_or(ctx, x, why):
    if why and why.startswith("harness: "):
        raise Broken(why)
    ctx.violation("compiling %s panics: %s" % (json.dumps(strip(x, ("src",)))[:200], str(why)[:200]), dict(expression=strip(x, ("src",)), observed=why))
