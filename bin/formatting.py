"""C26: formatting a document, against MCFormat."""
import json
import gens
from vlib import *
import server as L


def texts(ctx):
    r = ctx.rng
    out = []
    P = ["int 1", "a:", "// c", "", "b a", " \terr ", "#pragma version 8", "x: // y"]
    import itertools
    for k in range(0, 4 if ctx.quick else 5):
        for t in itertools.product(P, repeat=k):
            if len(P) ** k > 600 and r.random() > 600 / len(P) ** k:
                continue
            out.append(r.choice(["\n", "\n", "\r\n", "\r"]).join(t) + r.choice(["", "", "\n", "  ", "\n\t"]))
    for _ in range(250 if ctx.quick else 4000):
        out.append(L.doc(r))
    for _ in range(250 if ctx.quick else 4000):
        out.append(gens.join([gens.spaced(l, r) for l in gens.any_program(r)], r) + r.choice(["", "", " ", "\t\n ", "\n//  x ", '\nbyte "a', '\n"', '\n"abc', '\nerr "', '\n  "x y', '\nbytecblock 0x00 "a"', '\nbytecblock 0x00 "ab""op', '\nmethod "']))
    out += L.class_docs(r) + L.corpus(ctx, 1 if ctx.quick else 5) + [L.far_doc(r) for _ in range(10)]
    out += ['byte "a  //b "', 'byte "a \\" b"  // c', "  \"x\"", "//", "//\n\n//\n", "a:\n//x\n\nb:\n//y", 'byte "//"', "a: //", "a: b:", ":", "#pragma  version 8",
            " #pragma version 8", "#", "b\na:\nb", "err\nerr\n//x\nerr", "\n\n", "\r", "\t", "a:\n//", "err\n#pragma version 2\nerr",
            'int 1\n"abc', '"', 'err\n"\nerr', 'byte "a  b\nint 1', '"a // b', '"a\n"b\n\n"c', 'a: "']
    ok = lambda c: 31 < ord(c) < 127 or c in "\t\r\n"
    return [t for t in dict.fromkeys(out) if all(map(ok, t))]


def large(ctx):
    from analysis import long_program
    r = ctx.rng
    out = [gens.join([gens.spaced(l, r) for l in long_program(r, r.randrange(k, k + 100))], r) for k in ([300, 1030] if ctx.quick else [300, 1030, 1030, 1500])]
    out.append("int 1 //%s\nbyte \"%s\"  // x\n%serr\n%s" % (" c" * 2100, "a b" * 1400, "\t " * 2100, "\n" * 1100))
    return out


def ask(ctx, ts):
    """the texts after formatting, None where the answer is no set of edits"""
    S = []
    for t in ts:
        s = L.Session([L.opened(L.URIS[0], t), L.msg("textDocument/formatting", uri=L.URIS[0])])
        s.exp = {0: {"o": "none", "n": 0}, 1: {"o": "result", "n": 0}}
        S.append(s)
    L.run_real(ctx, S)
    out = []
    for s, t in zip(S, ts):
        if s.skipped:
            out.append(("skip", None))
            continue
        if s.fail or s.out is None:
            out.append((None, "the server died or hung: %s" % s.fail))
            continue
        got, wrong = L.pair(s)
        if wrong or L.outcome(got[1]) != "result":
            out.append((None, wrong or "an error response"))
            continue
        try:
            es = [(L.rg(e["range"]), e["newText"]) for e in got[1].get("result") or []]
            after = L.apply_edits(t, es)
            out.append((after, None if after is not None else "overlapping edits %s" % es))
        except (KeyError, TypeError, ValueError) as ex:
            out.append((None, "malformed edits: %s (%s)" % (json.dumps(got[1])[:200], ex)))
    return out


def check(ctx):
    ts = texts(ctx)
    few = len(ts)
    ts += large(ctx)
    first = ask(ctx, ts)
    recs = []
    second = ask(ctx, [a if a not in (None, "skip") else "" for a, _ in first])
    for i, (t, (a, w), (b, w2)) in enumerate(zip(ts, first, second)):
        if a == "skip" or b == "skip":
            continue
        if w or w2:
            ctx.violation("formatting %r: %s" % (t[:200], w or w2), dict(document=t, problem=w or w2))
            continue
        recs.append(dict(id=i, src=elems(t.encode()), out=elems(a.encode()), again=elems(b.encode())))
    spec = ctx.tlc1("MCFormat", [x for x in recs if x["id"] < few], per_shard=150)
    spec.update(ctx.tlc1("MCFormat", [x for x in recs if x["id"] >= few], one_each=True))
    n = 0
    for rec in recs:
        o, t, a, b = spec[rec["id"]], ts[rec["id"]], first[rec["id"]][0], second[rec["id"]][0]
        det = dict(document=t, formatted=a, again=b)
        n += 1
        if not o["same"]:
            ctx.violation("formatting %r gives %r, which does not hold the same lines from number %d on" % (t[:200], a[:200], o["at"]), det)
        elif not o["program"]:
            ctx.violation("formatting %r gives %r, another program" % (t[:200], a[:200]), det)
        elif not o["stable"]:
            ctx.violation("formatting %r again changes %r to %r" % (t[:200], a[:200], b[:200]), det)
        elif n % 200 == 1:
            ctx.sample(**det)
    ctx.traces += len(recs)
    ctx.notes.update(documents=len(ts), judged=n)
    if n < len(ts) // 2:
        raise Broken("only %d of %d documents judged" % (n, len(ts)))
    ctx.assumptions += ["documents are ASCII text; blanks at the end of a line do not matter"]
