"""C10..C13: the symbolic machine."""
import itertools, json
from vlib import *
import gens as G
from analysis import enc, show, bad

STEP, RUN = ["step"], ["run"]


def spec_cmd(c):
    if c[0] == "switch":
        return dict(c="switch", n=c[1], ls=[])
    if c[0] == "bp":
        return dict(c="bp", n=0, ls=c[1])
    return dict(c=c[0], n=0, ls=[])


def dechex(s):
    try:
        return bytes.fromhex(s).hex()
    except ValueError:
        return None


def unquote(s):
    """the bytes a printed literal stands for"""
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode("latin1")
            i += 1
            continue
        c = s[i + 1:i + 2]
        if c == "x":
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
        elif c in 'nrt\\"' and c:
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}[c]
            i += 2
        else:
            return None
    return out.hex()


def value_differs(sv, rt, rtext):
    """a value of the specification against the type and text the machine shows"""
    t, k, s, b = sv
    if rt.strip("()") != t:
        return True
    shown = rtext.split(": ", 1)[1] if ": " in rtext else ""
    if k == "":                          # what is not known is not shown as a constant
        return bool(re.fullmatch(r'[0-9]+|0x[0-9a-fA-F]*|"(?:[^"\\]|\\.)*"|(?:b64|base64|b32|base32)[ (].*', shown))
    if k.startswith("o"):                # loaded: behind the types it had
        k = k[1:]
        shown = re.sub(r"^(?:(?:any|uint64|bytes): )+", "", shown)
    if k == "int":
        return shown != s
    if k == "sig":
        return s not in spelled(shown)
    want = bytes(b).hex()
    if shown.startswith("0x"):
        return dechex(shown[2:]) != want
    m = re.fullmatch(r"(?:b64|base64)[ (]([A-Za-z0-9+/=]*)\)?", shown)
    if m:
        try:
            return base64.b64decode(m.group(1)).hex() != want
        except ValueError:
            return True
    m = re.fullmatch(r"(?:b32|base32)[ (]([A-Z2-7]*)=*\)?", shown)
    if m:
        try:
            return base64.b32decode(m.group(1) + "=" * (-len(m.group(1)) % 8)).hex() != want
        except ValueError:
            return True
    if shown.startswith('"') and shown.endswith('"'):
        return unquote(shown[1:-1]) != want
    return True


def cmp_stack(ss, rs):
    if len(ss) != len(rs):
        return "stack depth %d, expected %d" % (len(rs), len(ss))
    for i, (a, (t, x)) in enumerate(zip(ss, rs)):
        if value_differs(a, t, x):
            return "stack item %d is %s, expected %s" % (i, x, a)
    return None


def cmp_state(prop, so, ro, ops, nlines):
    """the first difference between a machine of the specification and the real one"""
    sb, rb = so["br"], ro["branches"]
    if so["err"] != ro["err"]:
        return "error %s, expected %s" % (ro["err"], so["err"])
    if len(sb) != len(rb):
        return "%d branches, expected %d" % (len(rb), len(sb))
    if sorted(map(tuple, so["trig"])) != sorted(set(map(tuple, ro["trig"]))):
        return "breakpoints hit %s, expected %s" % (ro["trig"], so["trig"])
    if so["bps"] != ro["bps"]:
        return "breakpoints %s, expected %s" % (ro["bps"], so["bps"])
    if so["cur"] != ro["cur"]:
        return "selected branch %s, expected %s" % (ro["cur"], so["cur"])
    for a, b in zip(sb, rb):
        if a["id"] != b["id"]:
            return "branch id %s, expected %s" % (b["id"], a["id"])
        if a["dirty"]:
            continue
        w = "branch %d: " % a["id"]
        sl = a["line"] if 0 <= a["line"] < nlines else -1
        rl = b["line"] if 0 <= b["line"] < nlines else -1
        if sl != rl:
            return w + "line %d, expected %d" % (rl, sl)
        if sl != -1 and a["name"] != spelled(b["name"]):
            return w + "name %r, expected %r" % (b["name"], a["name"])
        if a["budget"] != b["budget"]:
            return w + "budget %d, expected %d" % (b["budget"], a["budget"])
        st = [ops[l] for l in a["trace"]]
        if st != b["trace"]:
            return w + "executed %s, expected %s" % (b["trace"][-4:], st[-4:])
        if [list(f) for f in a["frames"]] != [[f[0], f[1], f[2], spelled(f[3])] for f in b["frames"]]:
            return w + "frames %s, expected %s" % (b["frames"], a["frames"])
        d = cmp_stack(a["stack"], b["stack"])
        if d:
            return w + d
    if not any(a["dirty"] for a in sb):
        if [x[0] for x in so["scratch"]] != [x[0] for x in ro["scratch"]]:
            return "scratch slots %s, expected %s" % ([x[0] for x in ro["scratch"]], [x[0] for x in so["scratch"]])
        for (i, v), (_, t, x) in zip(so["scratch"], ro["scratch"]):
            if value_differs(v, t, x):
                return "scratch slot %d is %s, expected %s" % (i, x, v)
    if "acc" in ro and sorted(set(so["bps"])) != ro["acc"]:
        return "accepted breakpoints %s, expected %s" % (ro["acc"], sorted(set(so["bps"])))
    return None


def replay(ctx, cases, per_shard=60, cap=40):
    """cases: (text, commands[, budget])"""
    cases = [(c if len(c) == 3 else c + (700,)) for c in cases]
    spec = ctx.tlc("MCVm", [dict(id=i, src=elems(enc(t)), addrs=G.ADDRS, cmds=[spec_cmd(c) for c in cs], budget=b, cap=cap)
                            for i, (t, cs, b) in enumerate(cases)], per_shard=per_shard)
    inputs, good = [], {}
    for i, (t, cs, b) in enumerate(cases):
        recs = sorted(spec.get(i, []), key=lambda o: o["k"])
        if not recs:
            raise Broken("no behaviour for case %d" % i)
        g = []
        for o in recs:
            if o["what"] != "ok":
                break
            g.append(o)
        good[i] = g
        inputs.append(dict(id=i, op="vm", src=b64(enc(t)), cmds=cs[:len(g) - 1], budget=b if b != 700 else 0))
    real = ctx.harness(inputs)
    ncmd = 0
    for i, (t, cs, b) in enumerate(cases):
        o = real.get(i)
        if o is None or "skipped" in o:
            continue
        w = bad(o)
        if w:
            ctx.violation("%r, commands %s: %s" % (t[:300], cs, w[:300]), dict(source=t, commands=cs, observed=w))
            continue
        for k, so in enumerate(good[i]):
            ncmd += 1
            d = cmp_state(ctx.prop, so, o["states"][k], o["ops"], len(o["ops"]))
            if d:
                ctx.violation("%r, after commands %s: %s" % (t[:300], cs[:k], d),
                              dict(source=t, commands=cs[:k], budget=b, difference=d, expected=so, observed=o["states"][k]))
                break
        else:
            if i % max(1, len(cases) // 5) == 0 and good[i]:
                ctx.sample(source=t, commands=json.dumps(cs), final=json.dumps(good[i][-1]["br"])[:400])
    ctx.traces += len(cases)
    ctx.notes["programs"] = ctx.notes.get("programs", 0) + len(cases)
    ctx.notes["commands_compared"] = ctx.notes.get("commands_compared", 0) + ncmd
    return spec, real


# ------------------------------------------------------------------ operands
PUSH = {"u": ["int 3", "txn Fee", "pushint 5", "int 0"], "b": ["byte 0x616263", "txn Sender", 'pushbytes "a\\"\\\\b\\n"', 'method "m()void"', "addr " + G.ADDRS[0]],
        "a": ["load 9", "load 200"]}
TYPE = {"uint64": "u", "bytes": "b", "any": "a"}


def pusher(c, r):
    return r.choice(PUSH[c])


def immediates(op, r, full):
    """operand word lists to try for an instruction"""
    imm = G.OPS[op]["imm"]
    if not imm:
        return [[]]
    out = [G.good_operands(op, r, ["L"]) for _ in range(3 if not full else 8)]
    for i, im in enumerate(imm):
        k = "txn" if im["k"] in ("txn", "txna", "itxn") else im["k"]
        if k in G.FIELDS:
            for f in G.FIELDS[k]:
                if im["k"] == "txna" and not f["arr"] or im["k"] == "itxn" and not f["itx"]:
                    continue
                w = [G.good(m["k"], r) for m in imm]
                w[i] = f["name"]
                if imm[-1]["opt"] and len(w) > i + 1:
                    # an index only where it is an array field
                    w = w if f["arr"] else w[:i + 1]
                out.append(w)
    return out


def needed(op, words):
    o = G.OPS[op]
    if o["eff"] == "std":
        return [TYPE[t] for t in o["pops"]]
    n = {"bury": 3, "dup": 1, "dup2": 2, "dig": 3, "swap": 2, "cover": 3, "uncover": 3, "store": 1, "dupn": 1, "popn": 3}
    e = o["eff"]
    if e in ("return", "bz", "bnz", "switch"):
        return ["u"]
    if e == "match":
        return ["a"] * (len(words) + 1)
    if e == "stores":
        return ["u", "a"]
    return ["a"] * n.get(e, 0)


def shapes(need, r, full):
    """operand stacks: right, with any type, one missing, one wrong each, with more below"""
    sel = [list(need)]
    mixed = [r.choice("ub") if c == "a" else c for c in need]
    sel += [mixed, ["a"] * len(need), ["b", "u"] + mixed]
    if need:
        sel.append(mixed[1:])
        if full:
            sel.append([])
        for i, c in enumerate(need):
            w = list(mixed)
            w[i] = {"u": "b", "b": "u", "a": r.choice("ub")}[c]
            sel.append(w)
            w2 = list(w)
            sel.append(["u"] + w2)
        sel.append(["u"] * len(need))
        sel.append(["b"] * len(need))
    return sel


def cases_c10(ctx):
    r = ctx.rng
    full = not ctx.quick
    out = []
    for op in G.OPN:
        eff = G.OPS[op]["eff"]
        ims = immediates(op, r, full)
        if ctx.quick and len(ims) > 14 and eff == "std":
            # every field once with the right operands, a few in all shapes
            few = r.sample(ims, 4)
        else:
            few = ims
        for w in ims:
            line = " ".join([op] + w)
            need = needed(op, w)
            ss = shapes(need, r, full) if w in few else [list(need)]
            if ctx.quick and len(ss) > 7:
                ss = ss[:4] + r.sample(ss[4:], 3)
            for s in ss:
                pre = [pusher(c, r) for c in s]
                ver = r.choice([10, 10, 10, 9, 8]) if G.OPS[op]["app"] <= 8 else 10
                t = "\n".join(["#pragma version %d" % ver] + pre + [line, "int 77", "L:", "int 78"])
                out.append((t, [STEP] * (len(pre) + 2), 100000 if r.random() < 0.5 or True else 700))
    # stack shuffling with every depth over stacks of distinct values
    for op in ["cover", "uncover", "dig", "bury", "popn", "dupn"]:
        for n in range(0, 6 if ctx.quick else 9):
            for d in list(range(0, n + 3)) + [127, 128, 254, 255]:
                pre = ["int %d" % (10 + i) if i % 3 else "byte 0x%02x" % (10 + i) for i in range(n)]
                out.append(("\n".join(["#pragma version 10"] + pre + ["%s %d" % (op, d), "int 99"]), [STEP] * (n + 2)))
    for op in ["dup", "dup2", "swap", "pop", "select"]:
        for n in range(0, 5):
            pre = ["int %d" % (10 + i) if i % 2 else "byte 0x%02x" % (10 + i) for i in range(n)]
            out.append(("\n".join(["#pragma version 10"] + pre + [op, "int 99"]), [STEP] * (n + 2)))
    # deep stacks
    for d in [250, 254, 255]:
        for op in ["dig", "cover", "uncover", "bury"]:
            out.append(("#pragma version 10\nbyte 0x01\nint 5\ndupn 255\nint 6\n%s %d\nint 1" % (op, d), [STEP] * 6))
    # multi-value pushes
    for n in range(0, 5):
        out.append(("#pragma version 10\nint 9\npushints %s\nint 1" % " ".join(str(i * 3) for i in range(n)), [STEP] * 3))
        out.append(("#pragma version 10\nint 9\npushbytess %s\nint 1" % " ".join('"v%d"' % i for i in range(n)), [STEP] * 3))
    # frames: arguments, locals and results addressed from the frame, over depths
    for args in range(0, 3):
        for loc in range(0, 3):
            for idx in range(-4, 4):
                for op in ["frame_dig", "frame_bury"]:
                    for below in (0, 1):
                        pre = ["int %d" % (50 + i) for i in range(below)] + ["byte 0x%02x" % (60 + i) for i in range(args)]
                        lv = ["int %d" % (70 + i) for i in range(loc)]
                        t = ["#pragma version 10"] + pre + ["callsub f", "int 1", "return", "f:", "proto %d 1" % args] + lv + \
                            ["%s %d" % (op, idx), "int 90", "retsub"]
                        out.append(("\n".join(t), [STEP] * (below + args + loc + 6)))
    # calls: every prototype over what was pushed
    for a in range(0, 4):
        for rr in range(0, 4):
            for given in (a - 1, a, a + 1):
                for body in range(0, 4):
                    if given < 0 or (ctx.quick and r.random() < 0.5):
                        continue
                    t = ["#pragma version 10"] + ["int %d" % (10 + i) for i in range(given)] + ["callsub f", "int 1", "return", "f:"] + \
                        (["proto %d %d" % (a, rr)] if r.random() < 0.8 else []) + ["byte 0x%02x" % (1 + i) for i in range(body)] + ["retsub"]
                    out.append(("\n".join(t), [STEP] * (given + body + 6)))
    # scratch space
    for slot in (0, 1, 128, 255):
        for v in ("int 3", "byte 0x0102", "txn Sender", "load 7"):
            t = ["#pragma version 10", v, "store %d" % slot, "load %d" % slot, "load %d" % ((slot + 1) % 256), "int %d" % slot, v, "stores",
                 "int %d" % slot, "loads", "int 256", "int 1", "stores", "int 2"]
            out.append(("\n".join(t), [STEP] * 13))
    vals = ["int 3", "int 4", "byte 0x0102", 'byte ""', "txn Sender", "txn Fee", "load 7", 'method "m()void"', "int 5\nitob", "byte 0x05\nbtoi"]
    for v in vals:                       # a slot is overwritten by whatever comes next
        for w in vals:
            for k in ("store 9", "stores"):
                pre = "int 9\n" if k == "stores" else ""
                t = "#pragma version 10\n%s%s\n%s\nload 9\n%s%s\n%s\nload 9\nint 9\nloads\n%s%s\n%s" % (pre, v, k, pre, w, k, pre, v, k)
                out.append((t, [STEP] * (t.count("\n") + 1)))
    out.append(("#pragma version 10\ntxn Fee\nint 1\nstores\nint 1\nbyte 0x01\nint 2\nstores", [STEP] * 7))
    out.append(("#pragma version 10\nint 18446744073709551615\nint 1\nstores\nint 1", [STEP] * 5))
    # random straight programs
    for _ in range(150 if ctx.quick else 4000):
        ls = ["#pragma version 10"]
        for _ in range(r.randrange(4, 22)):
            op = r.choice(G.OPN)
            if G.OPS[op]["eff"] in ("b", "bz", "bnz", "switch", "match", "callsub", "retsub", "err", "return"):
                continue
            if r.random() < 0.5:
                ls.append(pusher(r.choice("uba"), r))
            else:
                w = G.good_operands(op, r, ["L"])
                for c in needed(op, w):
                    if r.random() < 0.9:
                        ls.append(pusher(c, r))
                ls.append(" ".join([op] + w))
        out.append(("\n".join(ls), [STEP] * len(ls), 100000))
    return out


# ------------------------------------------------------------------ flow
def flow_lines(r, names):
    L = lambda: r.choice(names)
    c = r.random()
    if c < 0.22:
        return [L() + ":"]
    if c < 0.30:
        return ["b " + L()]
    if c < 0.44:
        return [r.choice(["int 1", "txn Fee", "load 1"]), r.choice(["bz ", "bnz "]) + L()]
    if c < 0.55:
        return ["callsub " + L()]
    if c < 0.63:
        n = r.randrange(0, 4)
        return [r.choice(["int 1", "load 2"]), " ".join(["switch"] + [L() for _ in range(n)])]
    if c < 0.70:
        n = r.randrange(0, 3)
        return ["int %d" % i for i in range(n + 1)] + [" ".join(["match"] + [L() for _ in range(n)])]
    if c < 0.78:
        return ["retsub"]
    if c < 0.82:
        return ["int 1", "return"]
    if c < 0.85:
        return ["err"]
    if c < 0.88:
        return ["proto %d %d" % (r.randrange(2), r.randrange(2))]
    if c < 0.93:
        return [r.choice(["", "// c", "#pragma version 8"])]
    return [r.choice(["int 5", "byte 0x01", "pop", "dup", "store 1", "load 1", "sha256", "+", "bogus", "int"])]


def flow_text(r, n=None):
    names = r.choice([["a"], ["a", "b"], ["a", "b", "c"], ["a", "b", "zz"], ["_a", "main_l1"], ["A", "a", "B.1"], ["0", "x-y", "int"], ["(main)", "(exited)"]])
    ls = ["#pragma version 8"] if r.random() < 0.8 else []
    for _ in range(n or r.randrange(2, 11)):
        ls += flow_lines(r, names)
    if r.random() < 0.7:
        for x in names:
            if x != "zz" and x + ":" not in ls:
                ls.insert(r.randrange(len(ls) + 1), x + ":")
    return "\n".join(ls)


def schedule(r, n):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.62:
            out.append(STEP)
        elif c < 0.92:
            out.append(["switch", r.choice([0, 0, 1, 1, 2, 3, 4, 9, -1])])
        elif c < 0.96:
            out.append(RUN)
        else:
            out.append(["bp", [r.randrange(-1, 14) for _ in range(r.randrange(3))]])
    return out


FLOWS = [["a:"], ["b:"], ["b a"], ["int 1", "bz a"], ["txn Fee", "bnz b"], ["callsub a"], ["retsub"], ["int 1", "return"], ["err"],
         ["int 2", "switch a b"], ["int 7"], ["b zz"], ["int 1", "int 2", "match b"], [""], ["callsub b"], ["proto 0 1"]]


def flow_programs(ctx, n, cap):
    out = []
    for k in range(1, n + 1):
        if len(FLOWS) ** k <= cap:
            ps = itertools.product(FLOWS, repeat=k)
        else:
            ps = [tuple(ctx.rng.choice(FLOWS) for _ in range(k)) for _ in range(cap)]
        for p in ps:
            out.append("\n".join(["#pragma version 8"] + [l for x in p for l in x]))
    return out


def block_text(r):
    """Well-formed programs out of subroutines in any order: calls, tests and jumps on the last line of a block,
    blocks that nothing follows, and no line end at the end."""
    subs = ["f", "g", "h"][:r.randrange(1, 4)]
    filler = lambda: r.choice([[], [], ["int 5", "pop"], ["int 1", "store 1"], ["load 1", "pop"], ["// c"], [""], ["byte 0x0102", "len", "pop"]])

    def body(me, last):
        out = []
        for _ in range(r.randrange(0, 3)):
            out += filler()
            callees = [x for x in subs if x > me]
            c = r.random()
            if c < 0.45 and callees:
                out += ["callsub " + r.choice(callees)]
            elif c < 0.6:
                x = me + str(len(out))
                out += [r.choice(["int 1", "txn Fee"]), r.choice(["bz ", "bnz "]) + x] + filler() + [x + ":"]
            elif c < 0.7:
                x = me + str(len(out))
                out += ["int 1", "switch " + x + " " + x] + filler() + [x + ":"]
        return out + last(me)

    def sub_end(me):
        return r.choice([["retsub"], ["retsub"], ["retsub"], ["int 1", "bnz " + me + "x", "retsub", me + "x:", "retsub"], ["int 1", "return"], ["err"]])

    def main_end(me):
        callees = [x for x in subs if x > me]
        c = r.random()
        if c < 0.45 and callees:
            return ["callsub " + r.choice(callees)]
        if c < 0.6:
            return ["int 1", r.choice(["bnz ", "bz "]) + r.choice(subs + ["main"])]
        if c < 0.7:
            return ["int 1", "switch " + r.choice(subs) + " main"]
        return r.choice([["int 1", "return"], ["int 1"], ["b " + r.choice(subs)], ["int 1", "int 2", "match " + r.choice(subs)], ["err"], ["retsub"]])
    blocks = [["main:"] + body("", main_end)] + [[x + ":"] + (["proto 0 0"] if r.random() < 0.3 else []) + body(x, sub_end) for x in subs]
    r.shuffle(blocks)
    ls = ["#pragma version 8"] + (["b main"] if r.random() < 0.85 else ["callsub main"])
    for b in blocks:
        ls += b
    return "\n".join(ls) + r.choice(["", "", "", "\n", "\n// end"])


def cases_c11(ctx):
    r = ctx.rng
    out = []
    for _ in range(350 if ctx.quick else 6000):
        t = block_text(r)
        out.append((t, [STEP] * r.randrange(6, 30) + schedule(r, r.randrange(0, 12))))
    for t in flow_programs(ctx, 3 if ctx.quick else 4, 400 if ctx.quick else 8000):
        out.append((t, [STEP] * 7 + [["switch", 1]] + [STEP] * 4 + [["switch", 0]] + [STEP] * 2))
    for _ in range(600 if ctx.quick else 12000):
        out.append((flow_text(r), schedule(r, r.randrange(4, 24))))
    # forks out of nested calls, then both sides go on independently
    base = "#pragma version 8\nint 1\nint 2\ncallsub f\nint 3\nreturn\nf:\nproto 1 1\nint 4\nint 5\nbz g\nint 6\nframe_bury 0\nretsub\ng:\nint 7\nframe_bury -1\ncallsub h\nretsub\nh:\nint 8\nswitch i j\npop\ni:\nretsub\nj:\nerr"
    for _ in range(40 if ctx.quick else 1500):
        out.append((base, [STEP] * r.randrange(6, 10) + [x for _ in range(14) for x in ([["switch", r.randrange(5)]] if r.random() < 0.6 else []) + [STEP]]))
    # all schedules over two or three branches
    small = "#pragma version 8\nint 1\nint 2\nswitch a b\nint 3\ncallsub c\nreturn\na:\nint 4\npop\nb:\nint 5\nstore 0\nerr\nc:\nbyte 0x01\nretsub"
    alpha = [STEP, ["switch", 0], ["switch", 1], ["switch", 2]]
    for s in itertools.product(alpha, repeat=4 if ctx.quick else 6):
        out.append((small, [STEP] * 3 + list(s) + [STEP] * 3))
    # budgets run out while others go on
    loop = "#pragma version 8\nint 1\nbz l2\nl1:\nint 1\npop\nb l1\nl2:\nbyte 0x01\nkeccak256\npop\nb l2"
    out.append((loop, [STEP] * 2 + [RUN]))
    out.append((loop, [STEP] * 2 + [["switch", 1]] + [STEP] * 10 + [["switch", 0]] + [STEP] * 3 + [["switch", 1], RUN, STEP, RUN]))
    return out


def cases_c12(ctx):
    r = ctx.rng
    out = []
    # the cost of every instruction and field at every version it exists in (and others)
    for op in G.OPN:
        o = G.OPS[op]
        ims = immediates(op, r, False)
        special = not isinstance(o["cost"], int)
        if not special and ctx.quick:
            ims = ims[:1]
        for w in ims:
            vers = range(1, 11) if (special or not ctx.quick) else r.sample(range(1, 11), 2)
            if special and ctx.quick and o["cost"][0] == "field":
                vers = [max(o["app"], 7), 10]
            for v in vers:
                pre = [pusher(c, r) for c in needed(op, w)]
                t = "\n".join(["#pragma version %d" % v] + pre + [" ".join([op] + w), "int 1", "L:", "int 1"])
                out.append((t, [STEP] * (len(pre) + 2), r.choice([700, 100000])))
    # version in the middle of the program; no version at all
    for op in ["sha256", "keccak256", "sha512_256"]:
        for h in ["", "#pragma version 1", "#pragma version 2"]:
            for mid in ["", "#pragma version 1", "#pragma version 2", "#pragma version 7"]:
                out.append(("\n".join([h, "byte 0x00", op, mid, op, "int 1"]), [STEP] * 4))
    # costs by length
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 200] if not ctx.quick else [0, 1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 64, 65, 100]:
        h = "0x" + "61" * n
        for push in ["byte " + h, "pushbytes " + h, "byte %s\nstore 3\nload 3" % h, "byte %s\ndup\npop" % h, 'byte "%s"' % ("a" * n),
                     "byte 0x00\nbyte %s\nswap\npop" % h]:
            out.append(("#pragma version 10\n%s\nbase64_decode StdEncoding\nint 1" % push, [STEP] * (push.count("\n") + 3)))
            out.append(("#pragma version 10\n%s\nbyte \"k\"\njson_ref JSONString\nint 1" % push, [STEP] * (push.count("\n") + 4)))
            out.append(("#pragma version 10\nbyte \"doc\"\n%s\njson_ref JSONUint64\nint 1" % push, [STEP] * (push.count("\n") + 4)))
    for push in ["txn Sender", "load 0", "int 5\nitob", 'method "a()void"', 'method "transfer_everything(uint64,address,string)void"', 'method "add(uint64,uint64)uint128"\nstore 3\nload 3', "addr " + G.ADDRS[0], "byte 0x01\nbyte 0x02\nconcat", "int 5\nstore 3\nload 3",
                 "txn Sender\nstore 3\nload 3", "byte 0x01\nstore 3\nbyte 0x0102030405060708090a0b0c0d0e0f1011\nstore 3\nload 3"]:
        for e in ["base64_decode URLEncoding", "byte 0x02\njson_ref JSONObject"]:
            out.append(("#pragma version 10\n%s\n%s\nint 1" % (push, e), [STEP] * (push.count("\n") + 4)))
    # exhaustion: exactly enough, one short, far short
    for k in range(0, 12):
        out.append(("#pragma version 7\nbyte 0x01\n" + "keccak256\n" * 5 + "pop\n" + "int 1\npop\n" * 18 + "int 1\n" * k + "byte 0x00\nkeccak256\nerr", [RUN, STEP, RUN]))
    for filler in ["int 1\npop", "int 1\nint 1\npopn 2", "byte 0x00\nsha256\npop", "byte 0x00\nkeccak256\nlen\npop", "int 1\nsqrt\npop", "byte 0x00\nbyte 0x00\nb+\npop",
                   "byte 0x00\nbyte 0x00\nbyte 0x00\ned25519verify\npop", "byte 0x0011\nbase64_decode StdEncoding\npop", "int 1\nexpw", "callsub f\nf:"]:
        for lead in range(0, 3 if ctx.quick else 12):
            out.append(("#pragma version 10\n" + "int 1\n" * lead + "l:\n" + filler + "\nb l", [RUN, STEP]))
    for lead in [698, 699, 700, 701]:
        out.append(("#pragma version 10\n" + "int 1\n" * lead, [RUN, STEP]))
    # the rest of the budget is inherited by forks and shared by none
    for d in range(0, 6 if ctx.quick else 30):
        out.append(("#pragma version 10\n" + "byte 0x00\nkeccak256\npop\n" * (d % 6) + "int 1\nswitch a b\nint 1\nreturn\na:\nint 2\npop\nb a\nb:\nbyte 0x00\nkeccak256\npop\nb b", [STEP] * (3 * (d % 6) + 2) + [["switch", d % 3], RUN, RUN]))
    # single steps that have much to do
    for op in ["dupn 255", "dupn 0", "dupn 1", "dupn 254"]:
        out.append(("#pragma version 10\nint 5\n%s\nint 1" % op, [STEP] * 3))
    out.append(("#pragma version 10\nint 5\ndupn 255\npopn 255\npopn 1\nint 2\npopn 2", [STEP] * 6))
    out.append(("#pragma version 10\nint 1\nswitch" + " a" * 38 + "\nerr\na:\nint 1\nb a", [STEP] * 6))
    out.append(("a:\nb a", [RUN]))
    out.append(("#pragma version 4\na:\ncallsub a", [RUN, STEP]))
    out.append(("#pragma version 8\na:\nb b\n\nb:\nb a", [["bp", [1]], RUN, RUN, ["bp", []], RUN]))
    for _ in range(100 if ctx.quick else 3000):
        out.append((flow_text(r), [STEP] * r.randrange(1, 6) + [RUN]))
    for _ in range(60 if ctx.quick else 2000):
        out.append((block_text(r), [STEP] * r.randrange(1, 6) + [RUN]))
    return out


def cases_c13(ctx):
    r = ctx.rng
    out = []
    # every set of breakpoints on small programs
    progs = ["#pragma version 8\nint 1\n\nbz a\nint 2\na:\nint 3\nerr", "int 1\nbnz a\n// c\nb b\na:\n\nint 2\nb:\nreturn",
             "#pragma version 8\ncallsub f\nf:\nint 1\nswitch f g\ng:\nerr", "a:\nb a", "int 1\npop\npop\nint 2", "", "// x",
             "#pragma version 8\nint 0\nloop:\nint 1\n+\nb loop"]
    for t in progs:
        n = len(t.split("\n")) + 1
        for k in range(0, 3 if ctx.quick else 4):
            for s in itertools.combinations(range(-1, n + 1), k):
                if ctx.quick and k == 2 and r.random() < 0.5:
                    continue
                out.append((t, [["bp", list(s)]] + [RUN] * 4 + [STEP, RUN]))
    for t in flow_programs(ctx, 2 if ctx.quick else 3, 300 if ctx.quick else 5000):
        n = len(t.split("\n"))
        out.append((t, [["bp", [r.randrange(n), r.randrange(n)]]] + [RUN] * 3))
    for _ in range(500 if ctx.quick else 9000):
        t = flow_text(r)
        n = len(t.split("\n"))
        cs = []
        for _ in range(r.randrange(3, 10)):
            c = r.random()
            if c < 0.35:
                cs.append(["bp", [r.choice([r.randrange(n + 2), r.randrange(n), -1, n, 1000]) for _ in range(r.randrange(5))]])
            elif c < 0.75:
                cs.append(RUN)
            elif c < 0.92:
                cs.append(STEP)
            else:
                cs.append(["switch", r.randrange(4)])
        out.append((t, cs))
    for _ in range(150 if ctx.quick else 3000):
        t = block_text(r)
        n = len(t.split("\n"))
        out.append((t, [["bp", [r.randrange(n) for _ in range(r.randrange(4))]]] + [RUN] * r.randrange(2, 6)))
    # running equals stepping: the same programs, stepped with the same breakpoints
    for t, cs in r.sample(out, 150 if ctx.quick else 3000):
        k = cs.index(RUN) if RUN in cs else len(cs)
        out.append((t, cs[:k] + [STEP] * 14))
    return out


def large(ctx):
    """deep stacks, many branches, deep calls, long programs, many breakpoints"""
    r, p = ctx.rng, ctx.prop
    out = []
    h = ["#pragma version 10"]
    if p == "C10":
        for n in (r.randrange(260, 300), r.randrange(1001, 1040)):
            vals = ["int %d" % i if i % 3 else "byte 0x%04x" % i for i in range(min(n, 300))] + ["dupn 255"] * (n // 300)
            for op in (["dig 255", "dig 254", "uncover 255", "cover 255", "bury 255"], ["popn 255", "dupn 255", "cover 200", "uncover 129", "swap"], ["bury 128", "dig 128", "dup2", "cover 129", "select"]):
                t = h + vals + op + ["int 1"]
                out.append(("\n".join(t), [["bp", [1 + len(vals)]], RUN, ["bp", []]] + [STEP] * (len(op) + 1), 100000))
        k = r.randrange(129, 200)
        out.append(("\n".join(h + ["int %d" % i for i in range(k)] + ["callsub f", "int 1", "return", "f:", "proto %d 3" % min(k, 127 + r.randrange(3)), "frame_dig -%d" % min(k, 128), "int 5", "frame_bury -1", "frame_dig -100",
                                                                        "int 6", "retsub"]), [["bp", [1 + k]], RUN] + [STEP] * 10, 5000))
        slots = list(range(256))
        r.shuffle(slots)
        out.append(("\n".join(h + [x for i in slots for x in ("int %d" % (i * 3), "store %d" % i)] + ["load %d" % i for i in slots[:200]] + ["int 255", "loads"]), [RUN], 5000))
    if p in ("C10", "C11"):
        # the last proto a subroutine executes holds
        for a, b, c, d in ((0, 0, 1, 1), (1, 1, 0, 0), (2, 1, 1, 2), (1, 0, 2, 1), (1, 1, 1, 1)):
            out.append(("\n".join(h + ["int 1", "byte 0x02", "callsub f", "int 3", "return", "f:", "proto %d %d" % (a, b), "int 4", "proto %d %d" % (c, d), "int 5", "int 6", "retsub"]), [STEP] * 11))
    if p == "C11":
        n = r.randrange(257, 300)
        ls = h + ["int 7", " ".join(["switch"] + ["x%d" % i for i in range(n)]), "int 1", "return"] + [l for i in range(n) for l in ("x%d:" % i, "int %d" % i)]
        out.append(("\n".join(ls), [STEP] * 3 + [x for b in (0, 1, 127, 128, 255, 256, n, n + 1, 2) for x in (["switch", b], STEP, STEP)]))
        d = r.randrange(257, 300)
        deep = h + ["callsub f0", "int 9", "return"] + [l for i in range(d) for l in ("f%d:" % i, "int %d" % i, "callsub f%d" % (i + 1), "retsub")] + ["f%d:" % d, "int 3", "bz f1", "retsub"]
        out.append(("\n".join(deep), [["bp", [len(deep) - 3]], RUN, STEP, STEP, STEP, STEP, ["switch", 1], STEP, STEP, ["switch", 0], STEP, RUN], 3000))
        long = h + ["b far"] + ["int 1"] * r.randrange(1030, 1100) + ["far:", "int 2", "bnz near", "err"] + ["// c"] * 300 + ["near:", "int 4", "b far"]
        out.append(("\n".join(long), [STEP] * 6 + [["switch", 1]] + [STEP] * 7))
        out.append(("\n".join(h + ["int 1"] * r.randrange(800, 850) + ["return"]), [RUN, STEP], 100000))
    if p == "C12":
        out.append(("\n".join(h + ["byte 0x%s" % ("61" * r.randrange(1030, 1100)), "dup", "base64_decode StdEncoding", "pop", 'byte "k"', "json_ref JSONString"]), [STEP] * 6))
        out.append(("\n".join(h + ["l:", "int 1", "sqrt", "pop", "b l"]), [RUN, STEP], r.randrange(1500, 2000)))
        out.append(("\n".join(h + ["l:", "byte 0x00", "byte 0x01", "byte 0x02", "ed25519verify", "pop", "b l"]), [RUN, STEP], r.randrange(70000, 100000)))
        out.append(("\n".join(h + ["int 1"] * r.randrange(701, 850)), [RUN, STEP], r.randrange(700, 850)))
        # the budget depends on nothing but what was executed: many labels, comments, branches and frames
        k = r.randrange(260, 300)
        out.append(("\n".join(h + ["// c"] * r.randrange(300) + ["l%d:" % i for i in range(k)] + ["int 1", "pop", "callsub l%d" % (k // 2)]), [STEP] * 4 + [RUN, STEP]))
        out.append(("\n".join(h + ["int 7", "switch" + "".join(" x%d" % i for i in range(k)), "return"] + [l for i in range(k) for l in ("x%d:" % i, "int 1", "pop")]), [STEP] * 3 + [["switch", k], STEP, STEP, ["switch", k // 2], STEP, STEP]))
    if p == "C13":
        n = r.randrange(1030, 1100)
        t = "\n".join(h + [r.choice(["int 1", "int 1", "// c", ""]) for _ in range(200)] + ["b far"] + ["int 1"] * (n - 200) + ["far:"] + ["int 2"] * 40)
        out.append((t, [["bp", [200, 255, 256, 257, n + 5, n + 9, n + 30, 5000]]] + [RUN] * 5))
        out.append((t, [["bp", list(range(0, n + 50, 4))]] + [RUN] * 12 + [["bp", [n + 20]], RUN, RUN], 2000))
        out.append((t, [["bp", r.sample(range(n + 60), r.randrange(k))] for k in range(1, 60)] + [RUN] * 8, 2000))
        # a breakpoint holds however deep the call, however many branches and however much was executed
        d = r.randrange(140, 160)
        deep = h + ["int 0", "f:", "int 1", "+", "callsub f"]
        out.append(("\n".join(deep), [["bp", [3]]] + [RUN] * (d - 1) + [["bp", [4]], RUN, RUN], 3000))
        chain = h + ["callsub f0", "int 9", "return"] + [l for i in range(d) for l in ("f%d:" % i, "callsub f%d" % (i + 1), "retsub")] + ["f%d:" % d, "int 3", "bz f1", "retsub"]
        out.append(("\n".join(chain), [["bp", [len(chain) - 3, len(chain) - 1, 7, 10, 2]]] + [RUN] * 12, 3000))
        out.append(("#pragma version 8\nint 1\nswitch" + " a" * r.randrange(130, 150) + "\nerr\na:\nint 1\nb a", [["bp", [5]], RUN, RUN, ["switch", 100], STEP, RUN]))
    return out


def check(ctx):
    p = ctx.prop
    cases = {"C10": cases_c10, "C11": cases_c11, "C12": cases_c12, "C13": cases_c13}[p](ctx)
    seen, uniq = set(), []
    for c in cases:
        k = json.dumps(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    replay(ctx, uniq)
    replay(ctx, large(ctx), per_shard=1, cap=400)
    ctx.assumptions += ["the specification's table of stack effects and costs (spec/TealTables.tla) is the documented language",
                        "a branch that stopped with an error inside an instruction is not stepped further",
                        "programs that start more than 40 branches (400 in some) are followed only that far"]
