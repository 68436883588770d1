"""C09: optimising a listing."""
import itertools, json
from vlib import *
import gens as G
from analysis import enc, show, bad, long_program


def defined(lines, r, p=0.9):
    """add definitions of the labels used but not defined, drop double ones"""
    seen, out, used = set(), [], set()
    for l in lines:
        w = l.split()
        if w and w[0].endswith(":"):
            if w[0] in seen:
                continue
            seen.add(w[0])
        elif w and w[0] in ("b", "bz", "bnz", "callsub", "switch", "match"):
            used |= set(w[1:])
        out.append(l)
    for u in sorted(used):
        if u + ":" not in seen:
            out.insert(r.randrange(len(out) + 1), u + ":")
    return out


SH = ["a:", "b:", "b a", "b b", "bz a", "bnz b", "callsub a", "retsub", "return", "err", "int 1", "", "switch a b", "#pragma version 8", "match b a"]


def texts(ctx):
    r = ctx.rng
    q = ctx.quick
    out = []
    for k in range(1, 5 if q else 6):
        if len(SH) ** k <= 4000:
            ps = itertools.product(SH, repeat=k)
        else:
            ps = [tuple(r.choice(SH) for _ in range(k)) for _ in range(1500 if q else 25000)]
        for p in ps:
            out.append("\n".join(defined(list(p), r)))
    for _ in range(1200 if q else 20000):
        names = r.choice([["a"], ["a", "b"], ["a", "b", "c"], ["a", "b", "c", "d", "e"]])
        ls = [r.choice([G.flow_line(r, names), G.flow_line(r, names), r.choice(names) + ":", "b " + r.choice(names)]) for _ in range(r.randrange(2, 22))]
        ls = [l for l in ls if "#pragma" not in l or r.random() < 0.3]
        out.append("\n".join(defined(ls, r)))
    # instructions of every kind in between
    for _ in range(150 if q else 3000):
        names = ["a", "b", "c"]
        ls = []
        for _ in range(r.randrange(2, 14)):
            ls.append(G.good_line(r.choice(G.OPN), r, names) if r.random() < 0.6 else r.choice(names) + ":")
        out.append("\n".join(["#pragma version 10"] + defined(ls, r)))
    # many labels in a row, chains of branches
    for n in range(1, 7):
        ls = ["l%d:" % i for i in range(n)]
        for k in range(n):
            out.append("\n".join(["bz l%d" % k, "b l%d" % (n - 1)] + ls + ["int 1", "switch " + " ".join(x[:-1] for x in ls), "b l%d" % k]))
        out.append("\n".join(x for i in range(n) for x in ("b l%d" % i, "l%d:" % i)))
        out.append("\n".join(x for i in range(n) for x in ("l%d:" % i, "b l%d" % ((i + 1) % n))))
        out.append("\n".join(["callsub l%d" % (n - 1), "return"] + [x for i in range(n) for x in ("l%d:" % i, "int %d" % i, "retsub")]))
    return list(dict.fromkeys(enc(t) for t in out))


def as_spec(e):
    op, a = real_entry(e)
    return dict(op=op, a=[dict(s=s, b=list(bytes.fromhex(b))) for s, b in a])


def large(ctx):
    r = ctx.rng
    out = []
    for k in ([300, 1030] if ctx.quick else [300, 600, 1030, 1030, 1300]):
        ls = [l for l in long_program(r, r.randrange(k, k + 100)) if l not in ("int 1 2", "foo", "load 256") and not (l.startswith("callsub") and r.random() < 0.95)]
        out.append("\n".join(defined(ls, r)))
    n = r.randrange(1010, 1100)
    out.append("\n".join(["bz z", "b a"] + ["int 1"] * n + ["b a", ""] + ["// c"] * 300 + ["a:", "err", "z:", "int 2"]))
    # labels named only far to the right of a long list
    for op in ("switch", "match"):
        m = r.randrange(257, 300)
        far = r.randrange(2, 30)
        ls = ["#pragma version 8", "int 1", " ".join([op] + [r.choice(["near", "x0"]) for _ in range(m)] + ["x%d" % i for i in range(far)]), "b near", "int 3"]
        for i in r.sample(range(far), far):
            ls += ["x%d:" % i, "int %d" % i] + r.choice([[], ["return"], ["b near"], ["err", "int 5"]])
        out.append("\n".join(ls + ["near:", "int 9"]))
    return [enc(t) for t in out]


def check(ctx):
    ts = texts(ctx)
    few = len(ts)
    ts += large(ctx)
    real = ctx.harness([dict(id=i, op="optimize", src=b64(t)) for i, t in enumerate(ts)])
    recs = []
    for i, t in enumerate(ts):
        o = real.get(i)
        if o is None or "skipped" in o:
            continue
        w = bad(o)
        if w:
            ctx.violation("optimising %r: %s" % (show(t)[:200], w[:300]), dict(source=show(t), observed=w))
            continue
        if o["list"] != o["after"]:
            ctx.violation("optimising %r changes the listing it was given" % show(t)[:200], dict(source=show(t), before=o["list"], after=o["after"]))
        recs.append(dict(id=i, src=elems(t), opt=[as_spec(e) for e in o["opt"]], addrs=G.ADDRS))

    failed = set()

    def violated(text, shard):
        inv = re.search(r"Invariant (\w+) is violated", text)
        rr = re.findall(r"/\\ r = (\d+)", text)
        name = inv.group(1) if inv else "?"
        if not rr:
            raise Broken("TLC reported a violation without a state")
        rec = shard[int(rr[-1]) - 1]
        i = rec["id"]
        failed.add(i)
        what = {"InvSame": "has other executions than the original", "InvResolved": "refers to labels that do not exist",
                "InvVersion": "does not declare the version of the original", "InvKept": "does not keep the order of the original"}.get(name, name)
        ctx.violation("optimising %r gives %s, which %s" % (show(ts[i])[:300], " / ".join(e["S"] for e in real[i]["opt"])[:300], what),
                      dict(source=show(ts[i]), optimised=[e["S"] for e in real[i]["opt"]], trace=text[text.find("Error:"):][:6000]))

    spec = ctx.tlc1("MCOptimize", [x for x in recs if x["id"] < few], on_violation=violated)
    spec.update(ctx.tlc1("MCOptimize", [x for x in recs if x["id"] >= few], on_violation=violated, one_each=True))
    n = changed = 0
    for rec in recs:
        s = spec.get(rec["id"])
        if s and s["scope"]:
            n += 1
            o = real[rec["id"]]
            if [real_entry(e) for e in o["list"]] != [spec_entry(e) for e in s["list"]]:
                ctx.violation("%r is read differently" % show(ts[rec["id"]])[:200], dict(source=show(ts[rec["id"]])))
            changed += len(o["opt"]) != len(o["list"])
            if n % 600 == 1:
                ctx.sample(source=show(ts[rec["id"]]), optimised=" / ".join(e["S"] for e in o["opt"]))
    ctx.traces += n
    ctx.notes.update(texts=len(ts), in_scope=n, large_in_scope=sum(1 for x in recs if x["id"] >= few and spec.get(x["id"], {}).get("scope")), changed_by_optimiser=changed, call_depth=3)
    ctx.assumptions += ["a retsub outside any call ends the execution", "call depth up to 3", "budget is not considered"]
