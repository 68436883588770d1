"""C22-C24: the debug adapter, against DapServer."""
import itertools, json
import gens
from vlib import *
from analysis import enc
from machine import value_differs, flow_text, flow_programs
from server import frame, lengthless, unframe, pacing, binary

PLAIN = ["disconnect", "evaluate", "setFunctionBreakpoints", "setInstructionBreakpoints", "setExceptionBreakpoints", "configurationDone"]
KINDS = ["State", "Stack", "Scratch", "Trace"]
UNKNOWN = ["stepIn", "stepOut", "stepBack", "terminate", "source", "modules", "", "Initialize", "launch ", "attach", "restart", "threads2"]


def req(c, k="ok", z=False, cz=False, prog=0, n=0, ls=(), kind="", s=-1, cnt=-1):
    return dict(c=c, k=k, z=z, cz=cz, prog=prog, n=n, ls=list(ls), kind=kind, s=s, cnt=cnt)


BIG = 10 ** 9      # stands for any number beyond what TLC calculates with


def huge(v, rng):
    return (-1 if v < 0 else 1) * rng.choice([10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 62]) if abs(v) == BIG else v


class Session:
    def __init__(self, srcs, msgs, note=""):
        self.srcs, self.msgs, self.note = srcs, msgs, note
        self.refs = {}


# ------------------------------------------------------------------ the wire
def arguments(m, s, paths, nowhere, rng):
    c = m["c"]
    if c == "initialize":
        a = {"clientID": "x", "adapterID": "teal"}
        if m["z"]:
            a["linesStartAt1"] = False
        elif rng.random() < 0.5:
            a["linesStartAt1"] = True
        if m["cz"]:
            a["columnsStartAt1"] = False
        elif rng.random() < 0.5:
            a["columnsStartAt1"] = True
        return a
    if c == "launch":
        return {"program": paths[m["prog"] - 1] if m["prog"] else rng.choice(nowhere)}
    if c == "setBreakpoints":
        a = {"source": rng.choice([{"path": paths[0], "name": "p"}] * 6 + [{"path": paths[0]}, {"name": "p"}, {}]), "breakpoints": [{"line": l} for l in m["ls"]]}
        if not m["ls"] and rng.random() < 0.5:
            del a["breakpoints"]
        return a
    if c in ("next", "continue", "stackTrace"):
        a = {"threadId": huge(m["n"], rng)}
        if c == "next" and rng.random() < 0.3:
            a["granularity"] = rng.choice(["statement", "line", "instruction"])
        return a
    if c == "scopes":
        return {"frameId": huge(m["n"], rng)}
    if c == "variables":
        if m["kind"]:
            ref = s.refs.get((m["n"], m["kind"]), 1 + 10 * m["n"] + KINDS.index(m["kind"]))
        else:
            ref = huge(m["n"], rng)
        a = {"variablesReference": ref}
        if m["s"] != -1:
            a["start"] = huge(m["s"], rng)
        if m["cnt"] != -1:
            a["count"] = huge(m["cnt"], rng)
        return a
    if c == "pause":
        return {"threadId": m["n"]}
    return {}


def bad_arguments(c, rng):
    o = [5, "x", [1], True]
    if c == "initialize":
        o += [{"linesStartAt1": "yes"}, {"linesStartAt1": 1}]
    elif c == "launch":
        o += [{"program": 5}, {"program": ["x"]}]
    elif c == "setBreakpoints":
        o += [{"breakpoints": 5}, {"breakpoints": [{"line": "1"}]}, {"breakpoints": [5]}, {"source": 5}]
    elif c == "variables":
        o += [{"variablesReference": "1"}, {"variablesReference": 1e30}, {"variablesReference": 1, "start": "0"}]
    elif c == "scopes":
        o += [{"frameId": "0"}, {"frameId": 0.5}]
    else:
        o += [{"threadId": "0"}, {"threadId": {}}, {"threadId": 1e30}]
    return rng.choice(o)


def body(m, seq, s, paths, nowhere, rng):
    if m["k"] == "none":
        return rng.choice([b"", b"{", b"[]", b"5", b"null", b"\xff", b'{"seq":', json.dumps({"seq": seq, "type": "event", "event": "x"}).encode(),
                           json.dumps({"seq": seq, "type": "response", "command": "launch", "request_seq": 1, "success": True}).encode(),
                           json.dumps({"seq": seq, "command": "threads"}).encode(), json.dumps({"seq": seq, "type": "", "command": "next"}).encode()])
    o = {"seq": seq, "type": "request", "command": m["c"]}
    if m["c"] == "" and rng.random() < 0.5:
        del o["command"]
    if m["k"] == "bad":
        o["arguments"] = bad_arguments(m["c"], rng)
    elif m["k"] == "ok":
        a = arguments(m, s, paths, nowhere, rng)
        if rng.random() < 0.1:
            a["more"] = [1]
        if a or rng.random() < 0.5:
            o["arguments"] = a
    elif rng.random() < 0.5:
        o["arguments"] = rng.choice([None, {}])
    if rng.random() < 0.1:
        o["x"] = {"a": None}
    return json.dumps(o).encode()


def encode(s, paths, nowhere, rng, upto):
    out = []
    s.seqs = []
    for i, m in enumerate(s.msgs[:upto]):
        seq = rng.choice([i, i + 1, i + 1, i + 1, 1000 + i, 7 * i + 3, 2147483647 - 3 * i])
        while seq in s.seqs:
            seq += 1
        s.seqs.append(seq)
        out.append(frame(body(m, seq, s, paths, nowhere, rng), rng) if m["k"] != "none" or rng.random() < 0.7 else lengthless(rng))
    if rng.random() < 0.15:       # the input ends in the middle of a message
        b = frame(json.dumps({"seq": 99999, "type": "request", "command": "threads"}).encode(), rng)
        out.append(b[:rng.randrange(1, len(b))])
    return out


def run_real(ctx, sessions):
    rng = ctx.rng
    d = os.path.join(ctx.dir, "programs")
    os.makedirs(d, exist_ok=True)
    nowhere = ["", os.path.join(d, "none.teal"), d, "\x00"]
    known = {}
    for n, s in enumerate(sessions):
        s.paths = []
        for t in s.srcs:
            if t not in known:
                known[t] = os.path.join(d, "p%d.teal" % len(known))
                with open(known[t], "wb") as f:
                    f.write(enc(t))
            s.paths.append(known[t])

    def go(todo):
        ins = []
        for n, s in todo:
            s.frames = encode(s, s.paths, nowhere, rng, s.upto)
            s.wire = b"".join(s.frames)
            if getattr(s, "paced", False):
                ins.append(dict(id=n, op="dap", **pacing(s.frames, [len(e["outs"]) for e in s.exp], rng)))
            else:
                ins.append({"id": n, "op": "dap", "in": b64(s.wire)})
        res = ctx.harness(ins)
        for n, s in todo:
            o = res.get(n, {"skipped": True})
            s.fail = o.get("crash") or o.get("panic") or ("timed out" if o.get("timeout") else None)
            s.skipped = o.get("skipped", False)
            s.code, s.err = o.get("code"), o.get("err")
            s.stalled = o.get("stalled", -1)
            s.raw = base64.b64decode(o.get("out", "") or "")
            s.out = None if s.fail or s.skipped else unframe(s.raw)
    go(list(enumerate(sessions)))
    # references are the adapter's choice: use those it gives
    again = []
    for n, s in enumerate(sessions):
        if not s.out:
            continue
        by = {q: m for q, m in zip(s.seqs, s.msgs)}
        for o in s.out:
            m = by.get(o.get("request_seq"))
            if o.get("type") == "response" and m and m["c"] == "scopes" and isinstance(o.get("body"), dict):
                for x in o["body"].get("scopes") or []:
                    if x.get("name") in KINDS:
                        ref = x.get("variablesReference")
                        if ref != 1 + 10 * m["n"] + KINDS.index(x["name"]):
                            s.refs[(m["n"], x["name"])] = ref
        if s.refs:
            again.append((n, s))
    if again:
        go(again)
    ls = ctx.harness([{"id": k, "op": "vm", "src": b64(enc(t)), "cmds": []} for k, t in enumerate(known)])
    ctx.listing = {t: ls[k].get("ops", []) for k, t in enumerate(known)}


def run_spec(ctx, sessions, per_shard=25, cap=40):
    recs = [dict(id=n, addrs=gens.ADDRS, srcs=[elems(enc(t)) for t in s.srcs], msgs=s.msgs, cap=cap) for n, s in enumerate(sessions)]

    def bad(text, sh):
        i = text.find("is violated")
        raise Broken("DapServer: a property of the specification fails:\n" + text[max(0, i - 200):i + 3000])
    res = ctx.tlc("MCDap", recs, per_shard=per_shard, on_violation=bad)
    for n, s in enumerate(sessions):
        got = sorted(res.get(n, []), key=lambda o: o["i"])
        if s.msgs and not got:
            raise Broken("no behaviour for session %d" % n)
        if got and got[-1]["what"] == "cut":
            got.pop()
        s.exp = got
        s.upto = len(got)
    ctx.traces += len(sessions)


# ------------------------------------------------------------------ comparing
def cmp_response(ctx, prop, s, e, m, body, got, ids):
    """what differs in the body of a successful response"""
    b = got.get("body")
    b = {} if b is None else b
    if not isinstance(b, dict):
        return "body %r" % (b,)
    c = m["c"]
    if m["k"] == "bad":
        return None
    if c == "threads":
        t = b.get("threads")
        if not isinstance(t, list):
            return "no list of threads"
        if e["vague"]:
            return None
        if [x.get("id") for x in t] != body:
            return "threads %s, expected %s" % ([x.get("id") for x in t], body)
        if not all(x.get("name") for x in t) or len({x["name"] for x in t}) != len(t):
            return "threads without names of their own"
    elif c == "setBreakpoints":
        t = b.get("breakpoints")
        if not isinstance(t, list):
            return "no list of breakpoints"
        ids.clear()
        for x, l in zip(t, m["ls"]):
            if x.get("id") is not None:
                ids.setdefault(x["id"], set()).add(l)
        if prop == "C22":
            return None
        if len(t) != len(body):
            return "%d breakpoints answered, expected %d" % (len(t), len(body))
        for x, (l, v) in zip(t, body):
            if x.get("verified") != v:
                return "breakpoint at line %d verified=%s, expected %s" % (l, x.get("verified"), v)
            if e["neg"] and x.get("line") is not None and x["line"] != l:
                return "breakpoint at line %d answered as line %s" % (l, x["line"])
    elif prop != "C22" and c == "stackTrace":
        t = b.get("stackFrames")
        if not isinstance(t, list):
            return "no stack frames"
        if e["vague"]:
            return None
        if len(t) != len(body):
            return "%d stack frames, expected %d" % (len(t), len(body))
        if b.get("totalFrames", len(t)) != len(t):
            return "totalFrames %s, expected %d" % (b.get("totalFrames"), len(t))
        nl = len(ctx.listing[s.srcs[e["prog"] - 1]]) if e["prog"] else 0
        lz = s.lz
        for k, (x, (name, line)) in enumerate(zip(t, body)):
            rl = x.get("line")
            if not isinstance(rl, int):
                return "frame %d has no line" % k
            if not 0 <= rl - lz < nl:
                rl = -1
            if rl != line:
                return "frame %d at line %s, expected %s" % (k, x.get("line"), line)
            if e["neg"] and x.get("column") != e["cz"]:
                return "frame %d at column %s, expected %s" % (k, x.get("column"), e["cz"])
            if line != -1 and spelled(real_name(x.get("name", ""))) != name:
                return "frame %d is %r, expected %r" % (k, x.get("name"), name)
            if x.get("id") != m["n"]:
                s.frameids = True
            if (x.get("source") or {}).get("path") != s.paths[e["prog"] - 1]:
                return "frame %d in source %s, expected %s" % (k, x.get("source"), s.paths[e["prog"] - 1])
    elif prop != "C22" and c == "scopes":
        t = b.get("scopes")
        if not isinstance(t, list):
            return "no scopes"
        if e["vague"] and not body:     # a branch of a machine driven out of the specification may exist by now
            return None
        if [x.get("name") for x in t] != [x[0] for x in body]:
            return "scopes %s, expected %s" % ([x.get("name") for x in t], [x[0] for x in body])
        if e["vague"]:
            return None
        for x, (name, cnt) in zip(t, body):
            if name == "Scratch":
                cnt = 256
            if name in ("Stack", "Trace", "Scratch") and x.get("indexedVariables", cnt) != cnt:
                return "scope %s announces %s variables, expected %d" % (name, x.get("indexedVariables"), cnt)
            if not x.get("variablesReference"):
                return "scope %s has no variables" % name
        if len({x["variablesReference"] for x in t}) != len(t):
            return "scopes share a reference"
    elif prop != "C22" and c == "variables" and m["kind"]:
        t = b.get("variables")
        if not isinstance(t, list):
            return "no variables"
        if e["vague"]:
            return None
        if [x.get("name") for x in t] != [str(x[0]) for x in body]:
            return "variables %s, expected %s" % ([x.get("name") for x in t], [str(x[0]) for x in body])
        ops = ctx.listing[s.srcs[e["prog"] - 1]] if e["prog"] else []
        for x, (name, v) in zip(t, body):
            rv = x.get("value", "")
            if m["kind"] == "State":
                if rv != str(v):
                    return "%s is %s, expected %s" % (name, rv, v)
            elif m["kind"] == "Trace":
                # the texts of the harness are latin1, those of the adapter JSON
                if real_name(rv) != ops[v]:
                    return "executed instruction %s is %r, expected %r" % (name, rv, ops[v])
            else:
                rv = real_name(rv)
                if value_differs(v, rv.split(":", 1)[0], rv):
                    return "value %s is %s, expected %s" % (name, rv, v)
    return None


def real_name(x):
    return x.encode("utf-8").decode("latin1") if isinstance(x, str) else ""


def cmp_stop(s, e, ex, b, ids, prop):
    reason, tid, hits, asked = ex
    if reason == "*" or prop == "C22" and b.get("reason"):
        return None if b.get("reason") else "no reason"
    if b.get("reason") != reason:
        return "stopped for reason %r, expected %r" % (b.get("reason"), reason)
    t = b.get("threadId")
    if reason == "exception":
        if t is not None and t != tid:
            return "exception in thread %s, expected %s" % (t, tid)
        if not b.get("description") and not b.get("text"):
            return "an exception without a description"
    elif hits:
        th = {}
        for x, l in hits:
            th.setdefault(x, set()).add(l + s.lz)
        want = [asked] if asked in th else sorted(th)
        if t not in want:
            return "stopped in thread %s, expected %s" % (t, want)
        h = b.get("hitBreakpointIds") or []
        at = set()
        for x in h:
            at |= ids.get(x, {"?%s" % x})
        if at != th[t]:
            return "breakpoints hit at lines %s, expected %s" % (sorted(map(str, at)), sorted(th[t]))
    else:
        if tid == -1 and t is not None or tid != -1 and t != tid:
            return "stopped in thread %s, expected %s" % (t, tid)
        if b.get("hitBreakpointIds"):
            return "breakpoints %s hit, expected none" % b["hitBreakpointIds"]
    return None


def compare(ctx, s, prop):
    if s.skipped:
        return None
    if s.fail:
        return 0, "the adapter died: " + s.fail[:300]
    if s.out is None:
        return 0, "the output is not a sequence of framed messages: %r" % s.raw[-200:]
    if s.err or s.code != 0:
        return len(s.msgs), "the adapter ended with code %s, error %s" % (s.code, s.err)
    out, k, seq, ids = s.out, 0, 0, {}
    s.lz = 0
    for i, e in enumerate(s.exp):
        m = s.msgs[i]
        if m["c"] == "initialize" and m["k"] in ("ok", "missing") and not m["z"]:
            s.lz = 1
        for x in e["outs"]:
            if k >= len(out):
                return i, "nothing more was sent, expected %s" % (x["ev"] if x["k"] == "e" else "a response")
            o = out[k]
            k += 1
            if o.get("seq") != seq + 1:
                return i, "sequence number %s, expected %d" % (o.get("seq"), seq + 1)
            seq += 1
            ex = json.loads(x["body"])
            if x["k"] == "e":
                if o.get("type") != "event" or o.get("event") != x["ev"]:
                    return i, "sent %s, expected event %s" % (json.dumps(o)[:200], x["ev"])
                if x["ev"] == "stopped":
                    d = cmp_stop(s, e, ex, o.get("body") or {}, ids, prop)
                    if d:
                        return i, d
                continue
            if o.get("type") != "response" or o.get("request_seq") != s.seqs[i] or o.get("command") != m["c"]:
                return i, "sent %s, expected the response to %s (%d)" % (json.dumps(o)[:200], m["c"], s.seqs[i])
            if m["k"] != "bad" and o.get("success") is not x["ok"]:
                return i, "success=%s, expected %s" % (o.get("success"), x["ok"])
            if x["ok"]:
                d = cmp_response(ctx, prop, s, e, m, ex, o, ids)
                if d:
                    return i, d
    if s.stalled >= 0:
        return s.stalled, "the answers to the messages before this one were not sent while the client waited for them"
    if k < len(out):
        return len(s.msgs), "sent %s as well, expected nothing" % json.dumps(out[k])[:200]
    return None


def verdict(ctx, sessions):
    for n, s in enumerate(sessions):
        d = compare(ctx, s, ctx.prop)
        if d:
            i, what = d
            ctx.violation("session %s over %r, message %d %s: %s" % (
                s.note, [t[:200] for t in s.srcs], i, short(s.msgs[i]) if i < len(s.msgs) else "(end)", what),
                dict(programs=s.srcs, messages=[short(m) for m in s.msgs[:i + 1]], at=i, difference=what,
                     input=s.wire.decode("latin1")[:20000], output=s.raw.decode("latin1")[:20000]))
        elif n % max(1, len(sessions) // 5) == 0:
            ctx.sample(session=s.note, program=s.srcs[0] if s.srcs else "", messages=json.dumps([short(m) for m in s.msgs]),
                       last=json.dumps(s.exp[-1]["outs"]) if s.exp else "")
    ctx.notes["sessions"] = ctx.notes.get("sessions", 0) + len(sessions)
    ctx.notes["messages"] = ctx.notes.get("messages", 0) + sum(len(s.exp) for s in sessions)


def short(m):
    d = req(m["c"])
    return [m["c"]] + ["%s=%s" % (k, v) for k, v in m.items() if v != d[k]]


# ------------------------------------------------------------------ sessions
PROGS = [
    "#pragma version 8\nint 1\nbz a\nint 2\nstore 3\na:\nint 3\nreturn",
    "#pragma version 8\nint 7\nbyte 0x6162\ncallsub f\nint 3\nreturn\nf:\nproto 2 1\nint 4\ncallsub g\nretsub\ng:\nbyte \"x\"\nstore 1\nint 5\nswitch h i\nint 9\nretsub\nh:\nload 1\nretsub\ni:\nint 6\npop\nerr",
    "#pragma version 8\nint 0\nloop:\nint 1\n+\ndup\nstore 0\nb loop",
    "int 1\npop\npop\nint 2",
    "",
    "// only a comment\nx:\n",
    "#pragma version 8\nint 1\nint 2\nmatch a b\n\nb:\nerr\na:\n// c\ncallsub a",
    "b nowhere",
    "#pragma version 8\nint 1\nswitch a b c\na:\nint 1\nbnz b\nint 2\nb:\nbyte 0x00\nkeccak256\npop\nc:\nint 3\nreturn",
]


def program(r):
    c = r.random()
    if c < 0.5:
        return r.choice(PROGS)
    return flow_text(r)


def looks(r, s_lines, ids, deep=True):
    """inspection of everything at a stop"""
    out = [req("threads")]
    for t in ids:
        out += [req("stackTrace", n=t), req("scopes", n=t)]
        for k in KINDS:
            out.append(req("variables", n=t, kind=k))
            if deep and r.random() < 0.4:
                out.append(req("variables", n=t, kind=k, s=r.choice([-1, 0, 1, 2, 3, 5, 300, BIG]), cnt=r.choice([-1, 0, 1, 2, 4, 256, BIG])))
    return out


def begin(r, srcs):
    z, cz = r.random() < 0.4, r.random() < 0.4
    return [req("initialize", z=z, cz=cz), req("launch", prog=1)], (0 if z else 1)


def bps(r, src, lz, k=None):
    n = len(src.split("\n"))
    return req("setBreakpoints", ls=[r.choice([r.randrange(n), r.randrange(n), r.randrange(n), -1, n, n + 3]) + lz
                                     for _ in range(r.randrange(4) if k is None else k)])


def random_session(r, looking):
    srcs = [program(r)] + ([program(r)] if r.random() < 0.3 else [])
    ms, lz = begin(r, srcs)
    cur = 0
    for _ in range(r.randrange(3, 12)):
        c = r.random()
        if c < 0.4:
            ms.append(req("next", n=r.choice([0, 0, 0, 1, 1, 2, 3, 9, -1])))
        elif c < 0.6:
            ms.append(req("continue", n=r.choice([0, 0, 1, 2, 7])))
        elif c < 0.75:
            ms.append(bps(r, srcs[cur], lz))
        elif c < 0.8:
            ms.append(req("pause"))
        elif c < 0.83:
            cur = r.randrange(len(srcs))
            ms.append(req("launch", prog=cur + 1))
        elif c < 0.86:
            ms.append(req("launch"))
        elif c < 0.9:
            ms.append(req(r.choice(PLAIN)))
        if r.random() < looking:
            ms += looks(r, 0, r.sample([0, 1, 2, 3], r.choice([1, 2])))
    return Session(srcs, ms, "random")


def protocol_session(r):
    srcs = [program(r) for _ in range(r.randrange(1, 3))]
    ms = []
    if r.random() < 0.7:
        ms.append(req("initialize", z=r.random() < 0.3, cz=r.random() < 0.3))
    for _ in range(r.randrange(1, 16)):
        k = r.choice(["ok"] * 7 + ["bad", "missing", "none"])
        c = r.choice(PLAIN + ["launch", "launch", "setBreakpoints", "threads", "pause", "continue", "next", "next", "variables", "scopes",
                              "stackTrace"] + [r.choice(UNKNOWN)])
        big = [0, 0, 1, 2, -1, 10 ** 6, BIG, -BIG]
        m = req(c, k=k)
        if k == "ok":
            m.update(n=r.choice(big), ls=[r.choice([1, 2, 3] + big) for _ in range(r.randrange(4))], s=r.choice([-1, 0, 1, 5, BIG]),
                     cnt=r.choice([-1, 0, 1, 3, BIG]))
            if c == "launch":
                m["prog"] = r.randrange(len(srcs) + 1)
            if c == "variables":
                m["kind"] = ""
                m["n"] = r.choice(big + list(range(1, 30)))
        ms.append(m)
    return Session(srcs, ms, "protocol")


# ------------------------------------------------------------------ every short session
def every_session(ctx, alphabet, srcs, depth, start):
    """all sessions of that many messages after the given ones"""
    return [Session(srcs, start + list(t), "exhaustive") for t in itertools.product(alphabet, repeat=depth)]


def cases_c22(ctx):
    r = ctx.rng
    S = [protocol_session(r) for _ in range(500 if ctx.quick else 8000)]
    S += [random_session(r, 0.1) for _ in range(100 if ctx.quick else 1500)]
    al = [req("initialize"), req("launch", prog=1), req("launch"), req("threads"), req("pause"), req("continue"), req("next"),
          req("stackTrace"), req("variables", kind="Stack"), req("scopes"), req("setBreakpoints", ls=[2]), req("evaluate"), req("nonsense"),
          req("next", k="bad"), req("x", k="none"), req("continue", k="missing"), req("setBreakpoints", k="missing"), req("launch", k="missing")]
    S += every_session(ctx, al, [PROGS[0]], 2 if ctx.quick else 3, [])
    if ctx.quick:
        S += r.sample(every_session(ctx, al, [PROGS[0]], 3, []), 400)
    return S


def cases_c23(ctx):
    r = ctx.rng
    S = []
    # every point of an execution, inspected in full
    for t in PROGS + [flow_text(r) for _ in range(40 if ctx.quick else 800)]:
        ms, lz = begin(r, [t])
        ms += looks(r, 0, [0, 1])
        for k in range(r.randrange(4, 9)):
            ms.append(req("next", n=r.choice([0, 0, 1, 2])))
            ms += looks(r, 0, [0, 1] if r.random() < 0.7 else [0, 1, 2, 3])
        S.append(Session([t], ms, "walk"))
    S += [random_session(r, 0.7) for _ in range(80 if ctx.quick else 2500)]
    # deep stacks, long traces, many scratch slots: every window
    deep = "#pragma version 8\n" + "\n".join("int %d" % (100 + i) for i in range(6)) + "\n" + "\n".join("byte 0x%02x\nstore %d" % (i, i * 51) for i in range(6))
    ms, lz = begin(r, [deep])
    ms += [req("next")] * 19 + [req("scopes")]
    for kind, n in (("Stack", 6), ("Scratch", 256), ("Trace", 18)):
        st = [-1, 0, 1, n - 1, n, n + 1, n // 2, 1000] + ([50, 51, 52, 204, 205] if n == 256 else [2, 3])
        for a in st:
            for c in [-1, 0, 1, 2, n, n - 1, n + 1, 1000] + ([51, 52, 103] if n == 256 else [3]):
                ms.append(req("variables", kind=kind, s=a, cnt=c))
    S.append(Session([deep], ms + looks(r, 0, [0], False), "windows"))
    # recursion: long stack traces
    rec = "#pragma version 8\nint 1\ncallsub a\nreturn\na:\nint 2\ncallsub b\nb:\n\ncallsub a"
    ms, lz = begin(r, [rec])
    for k in range(12):
        ms += [req("next"), req("stackTrace"), req("scopes"), req("variables", kind="Stack", n=0)]
    S.append(Session([rec], ms, "recursion"))
    # looking changes nothing: the same commands with and without
    for _ in range(25 if ctx.quick else 800):
        t = program(r)
        ms, lz = begin(r, [t])
        cmds = [r.choice([req("next", n=r.choice([0, 1, 2])), req("continue", n=r.choice([0, 1])), bps(r, t, lz)]) for _ in range(6)]
        junk = [req("variables", n=r.choice([-5, 0, 4, 9, 10, 55, 10 ** 6]), kind=""), req("scopes", n=77), req("stackTrace", n=-2), req("evaluate"), req("pause")]
        for c in cmds:
            ms += [c] + r.sample(junk, 2) + looks(r, 0, r.sample([0, 1, 2, 8], 2))
        S.append(Session([t], ms, "looking"))
    return S


def cases_c24(ctx):
    r = ctx.rng
    S = [random_session(r, 0.25) for _ in range(250 if ctx.quick else 6000)]
    # breakpoints everywhere, continued to the end
    for t in PROGS + [flow_text(r) for _ in range(60 if ctx.quick else 1500)]:
        for _ in range(2):
            ms, lz = begin(r, [t])
            n = len(t.split("\n"))
            ms.append(req("setBreakpoints", ls=[x + lz for x in range(-1, n + 2) if r.random() < 0.6]))
            for k in range(6):
                ms.append(req("continue", n=r.choice([0, 0, 1, 2])))
                if r.random() < 0.5:
                    ms += [req("threads")] + [req("stackTrace", n=x) for x in (0, 1)] + [req("variables", n=x, kind="Trace") for x in (0, 1)]
                if r.random() < 0.2:
                    ms.append(bps(r, t, lz))
                if r.random() < 0.2:
                    ms.append(req("next", n=r.choice([0, 1, 2])))
            S.append(Session([t], ms, "breakpoints"))
    # all interleavings of stepping and continuing threads
    t = PROGS[8]
    al = [req("next", n=0), req("next", n=1), req("next", n=3), req("continue", n=0), req("continue", n=2), req("setBreakpoints", ls=[9, 11]),
          req("setBreakpoints", ls=[])]
    tail = [req("threads")] + [req("stackTrace", n=x) for x in range(4)] + [req("variables", n=x, kind="Trace") for x in range(4)]
    base = [req("initialize"), req("launch", prog=1)] + [req("next")] * 2
    for s in every_session(ctx, al, [t], 3 if ctx.quick else 4, base):
        S.append(Session(s.srcs, s.msgs + tail, "interleaving"))
    # a new launch starts afresh
    for _ in range(20 if ctx.quick else 400):
        a, b = program(r), program(r)
        ms, lz = begin(r, [a, b])
        ms += [bps(r, a, lz), req("continue"), req("next", n=1), req("launch", prog=r.choice([1, 2]))] + looks(r, 0, [0, 1], False) + \
              [req("continue"), req("threads"), req("stackTrace")]
        S.append(Session([a, b], ms, "relaunch"))
    return S


def large(ctx):
    """deep stacks and calls, many threads and breakpoints, long programs and sessions"""
    r, p = ctx.rng, ctx.prop
    S = []
    h = "#pragma version 8\n"
    k = r.randrange(300, 340)
    deep = h + "".join("int %d\n" % i if i % 2 else "byte 0x%04x\n" % i for i in range(k)) + "int 1\nerr"
    d = r.randrange(130, 160)
    calls = h + "callsub f0\nint 9\nreturn\n" + "".join("f%d:\nint %d\ncallsub f%d\nretsub\n" % (i, i, i + 1) for i in range(d)) + "f%d:\nint 3\nbz f1\nretsub" % d
    w = r.randrange(130, 160)
    wide = h + "int 7\nswitch" + "".join(" x%d" % i for i in range(w)) + "\nint 1\nreturn\n" + "".join("x%d:\nint %d\n" % (i, i) for i in range(w))
    n = r.randrange(1030, 1060)
    long = h + "b far\n" + "int 1\n" * n + "far:\n" + "int 2\n" * 30 + "b far"
    def session(t, ms):
        b, lz = begin(r, [t])
        S.append(Session([t], b + [dict(m, ls=[l + lz for l in m["ls"]]) for m in ms], "large"))
    at = lambda *ls: req("setBreakpoints", ls=ls)
    if p == "C22":
        session(long, [r.choice([req("next"), req("threads"), req("stackTrace"), req("evaluate"), req("nonsense"), req("pause"), req("scopes")]) for _ in range(300)])
        session(wide, [req("next"), req("next")] + [r.choice([req("next", n=r.randrange(w)), req("threads"), req("stackTrace", n=r.randrange(w))]) for _ in range(60)])
        session(long, [at(*range(1, 1100)), req("continue"), req("continue"), req("continue"), req("disconnect")])
    if p == "C23":
        session(deep, [at(k + 1), req("continue"), req("scopes")] + [req("variables", kind=q, s=a, cnt=c) for q in ("Stack", "Trace") for a in (-1, 0, 5, 255, 256, k - 1, k, k + 1)
                                                                     for c in (-1, 1, 100, 255, 256, 257, 1000) if r.random() < 0.6])
        session(calls, [at(4 * d + 6), req("continue"), req("stackTrace"), req("scopes"), req("variables", kind="Stack"), req("next"), req("stackTrace", n=0), req("stackTrace", n=1),
                        req("threads"), req("next", n=1), req("stackTrace", n=1), req("scopes", n=1), req("variables", kind="Trace", n=1, s=100, cnt=300)])
        session(wide, [req("next")] * 2 + [req("threads")] + [x for j in (0, 1, w // 2, 127, 128, w, w + 1) for x in looks(r, 0, [j], False)])
        session(long, [req("next")] * 3 + looks(r, 0, [0], False))
    if p == "C24":
        session(long, [at(200, n + 5, n + 20, 5000)] + [x for _ in range(6) for x in (req("continue"), req("stackTrace"))] + [at(*r.sample(range(n + 30), 400))] + [req("continue")] * 4 + [req("variables", kind="Trace")])
        session(wide, [req("next")] * 2 + [at(*range(5, 2 * w))] + [x for _ in range(30) for x in (req("continue"),)] + [req("next", n=j) for j in (127, 128, w, 0, 64)] + [req("threads")] +
                [req("stackTrace", n=j) for j in (0, 1, 64, 127, 128, w)])
        session(calls, [at(4 * d + 6, 3), req("continue"), req("continue"), req("next", n=1), req("continue", n=1), req("stackTrace", n=0), req("stackTrace", n=1)])
        session(deep, [x for _ in range(60) for x in (req("next"),)] + [at(100), req("continue"), at(120), req("continue"), req("stackTrace"), req("variables", kind="Trace")])
    return S


def check(ctx):
    S = {"C22": cases_c22, "C23": cases_c23, "C24": cases_c24}[ctx.prop](ctx)
    run_spec(ctx, S)
    big = large(ctx)
    run_spec(ctx, big, per_shard=1, cap=400)
    S += big
    if ctx.prop == "C22":
        for s in S[::4]:
            s.paced = True
    run_real(ctx, S)
    if ctx.prop == "C22":
        binary(ctx, S, [["./cmd/tealdbg", []], ["./cmd/tealsp", ["dbg"]]], lambda s: verdict(ctx, [s]))
    verdict(ctx, S)
    ctx.assumptions += ["the machine shown is that of TealVm (C10-C13); sessions stop where a continue would start more than 40 branches (400 in some)",
                        "a branch that stopped inside an instruction is not inspected further",
                        "the texts of executed instructions are those the analysis prints (C08)"]
