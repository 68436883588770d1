"""C14-C21: the language server, against LspServer."""
import itertools, json, tempfile
import gens
from vlib import *

URIS = ["file:///a.teal", "file:///b.teal", "untitled:c"]
NOTIF = ["textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose", "initialized",
         "$/cancelRequest"]
POS = ["textDocument/definition", "textDocument/documentHighlight", "textDocument/prepareRename", "textDocument/completion",
       "textDocument/hover", "textDocument/signatureHelp"]
RANGE = ["textDocument/inlayHint", "textDocument/codeAction", "textDocument/inlineValue"]
PLAIN = ["textDocument/documentSymbol", "textDocument/codeLens", "textDocument/semanticTokens/full",
         "textDocument/diagnostic", "textDocument/formatting"]
REQS = POS + RANGE + PLAIN + ["textDocument/rename"]
COMMANDS = ["teal.version.update", "teal.value.replace", "teal.line.remove", "teal.label.remove", "teal.label.create"]


def msg(m, id=True, k="ok", uri="", texts=(), l=0, ch=0, l2=0, ch2=0, name="", cmd="", n=1, set="----", arg=None, v=8):
    return dict(m=m, id=id, k=k, uri=uri, texts=[elems(t.encode()) for t in texts], l=l, ch=ch, l2=l2, ch2=ch2,
                name=elems(name.encode()), cmd=cmd, n=n, v=v, set=list(set), _name=name, _texts=list(texts), _arg=arg)


def opened(uri, text):
    return msg("textDocument/didOpen", id=False, uri=uri, texts=[text])


def changed(uri, *texts):
    return msg("textDocument/didChange", id=False, uri=uri, texts=texts)


def spec_msg(m):
    return {k: v for k, v in m.items() if k[0] != "_"}


# ------------------------------------------------------------------ the wire
BADPARAMS = [5, "x", True, {"textDocument": 5}, {"textDocument": {"uri": 7}}, {"textDocument": ["a"]}, [1]]


def params(m, rng):
    """the parameters of a well-formed message"""
    p = {}
    if m["m"].startswith("textDocument/"):
        p["textDocument"] = {"uri": m["uri"]}
    if m["m"] == "textDocument/didOpen":
        p["textDocument"].update(version=1, languageId="teal", text=m["_texts"][0])
    elif m["m"] == "textDocument/didChange":
        p["textDocument"]["version"] = 2
        p["contentChanges"] = [{"text": t} for t in m["_texts"]]
    elif m["m"] == "textDocument/didSave" and rng.random() < 0.5:
        p["text"] = "int 1"
    elif m["m"] in POS or m["m"] == "textDocument/rename":
        p["position"] = {"line": m["l"], "character": m["ch"]}
        if m["m"] == "textDocument/rename":
            p["newName"] = m["_name"]
    elif m["m"] in RANGE:
        p["range"] = {"start": {"line": m["l"], "character": m["ch"]}, "end": {"line": m["l2"], "character": m["ch2"]}}
        if m["m"] == "textDocument/codeAction":
            p["context"] = {"diagnostics": []}
    elif m["m"] == "initialize":
        o = {}
        for name, v in zip(["semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"], m["set"]):
            if v != "-":
                o[name] = v == "t"
        p = {"processId": 1, "rootUri": None, "capabilities": {}}
        if o or rng.random() < 0.5:
            p["initializationOptions"] = o
    elif m["m"] == "workspace/executeCommand":
        p = {"command": m["cmd"]}
        if m["_arg"] is not None:
            p["arguments"] = m["_arg"]
        else:
            a = {"uri": m["uri"], "line": m["l"], "name": m["_name"] or "a", "version": m["v"], "value": m["_name"],
                 "range": {"start": {"line": m["l"], "character": m["ch"]}, "end": {"line": m["l2"], "character": m["ch2"]}}}
            p["arguments"] = [a] * m["n"]
    elif m["m"] == "$/cancelRequest":
        p = {"id": 1}
    return p


def body(m, ident, rng):
    if m["k"] == "junk":
        return rng.choice([b"", b"{", b"nul", b"\xff\xfe", b'{"jsonrpc":"2.0","id":1,"method":"shutdown"', b"]", b'{"id":}',
                           b'{"method":5,"id":3}', b'[{"id":1,"method":"shutdown"}]', b'"x"'])
    o = {"jsonrpc": "2.0"}
    if m["id"]:
        o["id"] = ident
    elif rng.random() < 0.1:
        o["id"] = None
    if m["k"] == "response":
        if rng.random() < 0.5:
            o["result"] = rng.choice([{}, {"applied": True}, [1], "x", 5, True])
        else:
            o["error"] = {"code": 1, "message": "x"}
        if m["m"] and rng.random() < 0.5:
            o["method"] = m["m"]
        o.setdefault("id", "1")
        return json.dumps(o).encode()
    if m["m"]:
        o["method"] = m["m"]
    elif rng.random() < 0.5:
        o["method"] = ""
    if m["k"] == "missing":
        if rng.random() < 0.4:
            o["params"] = None
    elif m["k"] == "bad":
        if m["m"] == "initialize":
            o["params"] = rng.choice([5, "x", [1], {"initializationOptions": 5}, {"initializationOptions": {"inlayNamed": "yes"}},
                                      {"clientInfo": 3}])
        elif m["m"] == "workspace/executeCommand":
            o["params"] = rng.choice([5, "x", {"command": 5}, {"command": "teal.line.remove", "arguments": 5},
                                      {"command": "teal.line.remove", "arguments": [5]},
                                      {"command": "teal.value.replace", "arguments": [{"uri": m["uri"], "range": 1}]},
                                      {"command": "teal.label.create", "arguments": {"uri": m["uri"]}}])
        else:
            c = list(BADPARAMS)
            if m["m"] in POS:
                c += [{"textDocument": {"uri": m["uri"]}, "position": 5},
                      {"textDocument": {"uri": m["uri"]}, "position": {"line": "0", "character": 0}},
                      {"textDocument": {"uri": m["uri"]}, "position": {"line": 0.5, "character": 0}},
                      {"textDocument": {"uri": m["uri"]}, "position": {"line": 0, "character": 1e30}}]
            if m["m"] in ("textDocument/inlayHint", "textDocument/codeAction"):
                c += [{"textDocument": {"uri": m["uri"]}, "range": [1]}]
            if m["m"] == "textDocument/didChange":
                c += [{"textDocument": {"uri": m["uri"]}, "contentChanges": "x"},
                      {"textDocument": {"uri": m["uri"]}, "contentChanges": [{"text": 5}]}]
            o["params"] = rng.choice(c)
    elif m["k"] == "empty":
        o["params"] = {}
    elif m["m"] not in ("shutdown", "exit") or rng.random() < 0.2:
        o["params"] = params(m, rng)
    if rng.random() < 0.2:
        o["extra"] = {"a": [None]}
    return json.dumps(o, ensure_ascii=rng.random() < 0.5).encode()


def frame(b, rng):
    h = ["Content-Length: %d" % len(b)]
    c = rng.random()
    if c < 0.1:
        h.append("Content-Type: application/vscode-jsonrpc; charset=utf-8")
    elif c < 0.2:
        h.insert(0, "Content-Type: application/vscode-jsonrpc; charset=utf-8")
    elif c < 0.25:
        h = ["content-length:%d" % len(b)]
    return ("\r\n".join(h) + "\r\n\r\n").encode() + b


def idents(n, rng):
    """distinct ids of the kinds clients use"""
    out, seen = [], set()
    while len(out) < n:
        c = rng.random()
        v = len(out) + 1 if c < 0.7 else "id-%d" % len(out) if c < 0.8 else rng.choice([0, -1, 2147483647, "", "1", "null", "é"]) \
            if c < 0.9 else rng.randrange(10 ** 6)
        if json.dumps(v) not in seen:
            seen.add(json.dumps(v))
            out.append(v)
    return out


def wire(msgs, rng):
    ids = idents(len(msgs), rng)
    out = [frame(body(m, i, rng), rng) if m["k"] != "junk" or rng.random() < 0.7 else lengthless(rng) for m, i in zip(msgs, ids)]
    if msgs and rng.random() < 0.1:      # the input ends in the middle of a message
        b = frame(json.dumps({"jsonrpc": "2.0", "id": 99999, "method": "shutdown"}).encode(), rng)
        out[-1] += b[:rng.randrange(1, len(b))]
    return out, ids


def lengthless(rng):
    """a header that gives no usable length"""
    return rng.choice([b"Content-Length: -1", b"Content-Length: -9223372036854775808", b"Content-Length: x", b"Content-Length:", b"X-A: 1",
                       b"Content-Length: 1.5", b"Content-Length: 99999999999999999999999", b"Content-Type: a\r\nContent-Length: -0x5"]) + b"\r\n\r\n"


def pacing(frames, counts, rng):
    """the harness's paced client: each frame after the answers to all before it"""
    w, wait = 0, []
    for i in range(len(frames)):
        wait.append(w)
        w += counts[i] if i < len(counts) else 0
    return {"frames": [b64(f) for f in frames], "wait": wait, "chunk": rng.choice([0, 1, 3, 7, 50, 1000])}


def drive(exe, frames, env=None, timeout=60):
    """a session with a real process over its standard input and output"""
    import threading
    p = subprocess.Popen(exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def feed():
        try:
            for f in frames:
                p.stdin.write(f)
                p.stdin.flush()
            p.stdin.close()
        except (BrokenPipeError, ValueError):
            pass
    err = []
    th = threading.Thread(target=feed, daemon=True)
    te = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
    th.start()
    te.start()
    k = threading.Timer(timeout, p.kill)
    k.start()
    out = p.stdout.read()
    code = p.wait()
    k.cancel()
    te.join(5)
    return code, out, (err or [b""])[0]


def unframe(bs):
    """the messages written, or None when the framing is wrong"""
    out = []
    while bs:
        i = bs.find(b"\r\n\r\n")
        if i < 0:
            return None
        n = None
        for h in bs[:i].split(b"\r\n"):
            k, _, v = h.partition(b":")
            if k.strip().lower() == b"content-length":
                n = int(v) if v.strip().isdigit() else None
        if n is None or len(bs) < i + 4 + n:
            return None
        try:
            o = json.loads(bs[i + 4:i + 4 + n])
        except ValueError:
            return None
        if not isinstance(o, dict):
            return None
        out.append(o)
        bs = bs[i + 4 + n:]
    return out


# ------------------------------------------------------------------ running
class Session:
    def __init__(self, msgs, note=""):
        self.msgs, self.note = msgs, note


def run_real(ctx, sessions):
    """[(code, messages or None, failure text or None)] of the sessions"""
    rng = ctx.rng
    inputs = []
    for n, s in enumerate(sessions):
        if not hasattr(s, "wire"):
            s.frames, s.ids = wire(s.msgs, rng)
            s.wire = b"".join(s.frames)
        if getattr(s, "paced", False):
            counts = [s.exp[i]["n"] + (s.exp[i]["o"] != "none") if i in s.exp else 0 for i in range(len(s.msgs))]
            inputs.append(dict(id=n, op="lsp", **pacing(s.frames, counts, rng)))
        else:
            inputs.append({"id": n, "op": "lsp", "in": b64(s.wire)})
    res = ctx.harness(inputs)
    for n, s in enumerate(sessions):
        o = res.get(n, {"skipped": True})
        s.fail = o.get("crash") or o.get("panic") or ("timed out" if o.get("timeout") else None)
        s.skipped = o.get("skipped", False)
        s.code = o.get("code")
        s.raw = base64.b64decode(o.get("out", "") or "")
        s.out = None if s.fail or s.skipped else unframe(s.raw)
        s.stalled = o.get("stalled", -1)


def run_spec(ctx, sessions, addrs=gens.ADDRS, per_shard=20, cfg=None):
    recs = [{"id": n, "addrs": list(addrs), "msgs": [spec_msg(m) for m in s.msgs]} for n, s in enumerate(sessions)]

    def bad(text, sh):
        i = text.find("is violated")
        at = re.findall(r"^/\\ ([ir]) = (\d+)", text, re.M)[-2:]
        at = {k: int(v) for k, v in at}
        ms = sessions[sh[at["r"] - 1]["id"]].msgs[:at["i"]] if len(at) == 2 else []
        raise Broken("LspServer: the specification fails: %s\n%s" % (text[max(0, i - 60):i + 12].split("\n")[-1],
            "\n".join(str({k: v for k, v in m.items() if v and k not in ("texts", "name", "set")}) for m in ms)))
    res = ctx.tlc("MCLsp", recs, per_shard=per_shard, on_violation=bad, cfg=cfg)
    for n, s in enumerate(sessions):
        got = sorted(res.get(n, []), key=lambda o: o["i"])
        s.exp = {o["i"] - 1: o for o in got}
    ctx.traces += len(sessions)


def pair(s):
    """the responses of a session, one per request, as {message index: response};
    a text when the sequence of responses is not the expected one"""
    exp = [(i, s.exp[i]) for i in sorted(s.exp)]
    got = {}
    out = list(s.out)
    k = 0
    s.requests = {}
    used = set()
    for i, e in exp:
        if e["n"]:
            if k < len(out) and out[k].get("method") == "workspace/applyEdit":
                s.requests[i] = out[k]
                if out[k].get("id") is None or json.dumps(out[k]["id"]) in used:
                    return got, "message %d (%s): the request of the server carries no id of its own: %r" % (i, s.msgs[i]["m"], out[k].get("id"))
                used.add(json.dumps(out[k]["id"]))
                k += 1
        if e["o"] == "none":
            continue
        if k >= len(out):
            return got, "message %d (%s) is not answered" % (i, s.msgs[i]["m"])
        o = out[k]
        if "method" in o:
            return got, "message %d (%s): unexpected %s" % (i, s.msgs[i]["m"], o.get("method"))
        if json.dumps(o.get("id")) != json.dumps(s.ids[i]):
            return got, "message %d (%s) with id %r: the next response carries id %r" % (i, s.msgs[i]["m"], s.ids[i], o.get("id"))
        k += 1
        got[i] = o
    if k < len(out):
        return got, "a message that answers nothing: %s" % json.dumps(out[k])[:300]
    return got, None


def outcome(o):
    return "error" if o.get("error") is not None else "result"


def describe(s, i=None):
    d = {"note": s.note, "messages": [{k: v for k, v in
                                       dict(m=m["m"], id=s.ids[j] if m["id"] else None, params=m["k"], uri=m["uri"],
                                            text=m["_texts"] or None, at=[m["l"], m["ch"], m["l2"], m["ch2"]], cmd=m["cmd"] or None,
                                            name=m["_name"] or None).items() if v is not None}
                                      for j, m in enumerate(s.msgs)]}
    if i is not None:
        d["at message"] = i
    return d


# ------------------------------------------------------------------ contents
def rg(r):
    return [r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]]


def one(r):
    a = rg(r)
    return [a[0], a[1], a[3]] if a[0] == a[2] else a


def line_table(text):
    ls, b, i = [], 0, 0
    while i < len(text):
        if text[i] == "\r" and i + 1 < len(text) and text[i + 1] == "\n":
            ls.append((b, i))
            i += 2
            b = i
        elif text[i] in "\r\n":
            ls.append((b, i))
            i += 1
            b = i
        else:
            i += 1
    ls.append((b, len(text)))
    return ls


def apply_edits(text, edits):
    """the text after the edits, or None when they overlap"""
    ls = line_table(text)

    def off(l, c):
        if l >= len(ls):
            return len(text)
        return min(ls[l][0] + max(c, 0), ls[l][1])
    es = sorted((off(a, b), off(c, d), t) for (a, b, c, d), t in edits)
    out, at = [], 0
    for p, q, t in es:
        if p < at or q < p:
            return None
        out += [text[at:p], t]
        at = q
    return "".join(out) + text[at:]


def edits_of(edit, uri):
    """the edits a workspace edit makes to a document; None when it touches another one"""
    es = []
    for u, l in (edit.get("changes") or {}).items():
        if u != uri and l:
            return None
        es += l or []
    for d in edit.get("documentChanges") or []:
        if d["textDocument"]["uri"] != uri:
            return None
        es += d["edits"]
    return [(rg(e["range"]), e["newText"]) for e in es]


def field_text(kind, n):
    f = DOCS["fields"][kind][n]
    return "%s = %d\r\n%s" % (f["name"], n, f["note"])


def doc_of(x):
    d = x.get("documentation") or ""
    return d if isinstance(d, str) else d.get("value") or ""


def detail_of(x):
    return (x.get("labelDetails") or {}).get("detail") or ""


def op_item(x, ver):
    """what is wrong with an offered instruction"""
    d = DOCS["ops"][x["label"]]
    if doc_of(x) != d["doc"]:
        return "completion documents %s as %r, expected %r" % (x["label"], doc_of(x), d["doc"])
    ld = x.get("labelDetails") or {}
    if re.findall(r"\d+", ld.get("description") or "") != [str(ver)]:
        return "completion says %s came with %r, expected version %d" % (x["label"], ld.get("description"), ver)
    if (ld.get("detail") or "").strip() != d["args"]:
        return "completion shows the operands %r of %s, expected %r" % (ld.get("detail"), x["label"], d["args"])
    ins = x.get("insertText") or x["label"]
    if x.get("insertTextFormat") == 2:
        ins = re.sub(r"\$\{\d+:([^}]*)\}", r"\1", ins)
    if ins.split() != [x["label"]] + " ".join(d["argnames"]).split():
        return "completing %s inserts %r" % (x["label"], x.get("insertText"))
    return None


def compare(s, i, m, e, r, text, legend):
    """None, or what is wrong with the result r of message m (expected content e)"""
    v = e["v"]
    k = m["m"].split("/")[-1]
    try:
        if k == "definition":
            got = sorted(one(x["range"]) for x in r or [])
            if any(x["uri"] != m["uri"] for x in r or []):
                return "a definition in another document"
            return None if got == sorted(v) else "definitions %s, expected %s" % (got, v)
        if k == "documentHighlight":
            got = sorted(one(x["range"]) for x in r or [])
            return None if got == sorted(v) else "highlights %s, expected %s" % (got, v)
        if k == "documentSymbol":
            got = sorted([x["name"]] + one(x["range"]) for x in r or [])
            sel = sorted([x["name"]] + one(x["selectionRange"]) for x in r or [])
            return None if got == sorted(v) and sel == sorted(v) else "outline %s, expected %s" % (got, v)
        if k == "codeLens":
            got = sorted([x["range"]["start"]["line"], int(re.search(r"\d+", x["command"]["title"]).group())] for x in r or [])
            return None if got == sorted(v) else "lenses %s, expected %s" % (got, v)
        if k == "prepareRename":
            got = [] if not r else [one(r["range"]), r["placeholder"]]
            return None if got == v else "prepareRename gives %s, expected %s" % (got, v)
        if k == "rename":
            es = edits_of(r or {}, m["uri"])
            if es is None:
                return "an edit of another document"
            if not v[0]:
                return None if not es else "edits where there is nothing to rename: %s" % es
            after = apply_edits(text, es)
            return None if after == v[1] else "text after the rename %r, expected %r" % (after, v[1])
        if k == "inlayHint":
            got = sorted([x["position"]["line"], x["position"]["character"], x["label"]] for x in r or [])
            return None if got == sorted(v) else "hints %s, expected %s" % (got, sorted(v))
        if k == "completion":
            items = r["items"] if isinstance(r, dict) else (r or [])
            items = [x for x in items if x["label"] != ""]
            if v["k"] == "any":
                return None
            if v["k"] == "op":
                exp = dict(v["v"])
                ops = [x for x in items if x.get("kind") != 15]
                got = sorted(x["label"] for x in ops)
                if got == sorted(exp):
                    return next((w for w in (op_item(x, exp[x["label"]]) for x in ops) if w), None)
                else:
                    return "completion offers %s besides and lacks %s" % (sorted(set(got) - set(exp)) or [x for x in got if got.count(x) > 1],
                                                                          sorted(set(exp) - set(got)))
                return None
            if v["a"] == "label":
                got = sorted({(x["label"], doc_of(x), tuple(re.findall(r"\d+", detail_of(x)))) for x in items})
                exp = sorted({(x[0], "\n".join(x[1]), tuple(str(n) for p in x[2] for n in p)) for x in v["v"]})
                if got == exp:
                    return None
                return "completion offers the labels %s, expected %s" % (got, exp)
            got = sorted([x["label"], int(((x.get("labelDetails") or {}).get("detail") or "= -1").split("=")[1])] for x in items)
            exp = sorted(v["v"])
            if got != exp:
                return "completion of %s: unexpected %s, missing %s" % (v["a"] or "nothing", [x for x in got if x not in exp],
                                                                       [x for x in exp if x not in got])
            if v["a"] != "const":
                notes = {f["name"]: f["note"] for f in DOCS["fields"]["txn" if v["a"] in ("txna", "itxn") else v["a"]]} if v["a"] else {}
                for x in items:
                    if doc_of(x) != notes[x["label"]]:
                        return "completion documents %s as %r, expected %r" % (x["label"], doc_of(x), notes[x["label"]])
            return None
        if k == "hover":
            got = None
            if r:
                c = r["contents"]
                got = c if isinstance(c, str) else c["value"]
            exp = None if not v else DOCS["ops"][v[1]]["full"] if v[0] == "op" else field_text(v[1], v[2])
            return None if (got or "") == (exp or "") else "hover shows %r, expected %r" % (got, exp)
        if k == "signatureHelp":
            sigs = (r or {}).get("signatures") or []
            if not v:
                return None if not sigs else "signature help where there is no instruction: %s" % sigs
            d = DOCS["ops"][v[0]]
            if len(sigs) != 1:
                return "%d signatures" % len(sigs)
            g = sigs[0]
            got = [g["label"], [p["label"] for p in g.get("parameters") or []]]
            if got != [d["fullsig"], d["argnames"]]:
                return "signature %s, expected %s" % (got, [d["fullsig"], d["argnames"]])
            act = g.get("activeParameter", (r or {}).get("activeParameter", 0))
            if v[1] < len(d["argnames"]) and act != v[1]:
                return "active parameter %s, expected %d" % (act, v[1])
            if v[1] >= len(d["argnames"]) and d["argnames"] and 0 <= act < len(d["argnames"]):
                return "active parameter %s, expected none of them" % act
            return None
        if k == "full":
            data = r["data"]
            if len(data) % 5:
                return "incomplete token data"
            got, l, b = [], 0, 0
            for j in range(0, len(data), 5):
                dl, db, n, t, mod = data[j:j + 5]
                l, b = (l + dl, db) if dl else (l, b + db)
                got.append([l, b, n, legend[t] if t < len(legend) else "?%d" % t])
                if mod:
                    return "a token with modifiers %d, of which the legend names none" % mod
            return None if got == v else "tokens %s, expected %s" % (first_diff(got, v))
        if k == "diagnostic":
            if r.get("kind") != "full":
                return "not a full report"
            got = sorted(one(x["range"]) + [x.get("severity")] for x in r["items"])
            return None if got == sorted(v) else "diagnostics %s, expected %s" % (got, sorted(v))
        if k == "codeAction":
            return compare_actions(m, v, r)
    except (KeyError, TypeError, ValueError, AttributeError, IndexError) as ex:
        return "malformed result %s (%s)" % (json.dumps(r)[:200], ex)
    raise Broken("nothing compares the answers to " + m["m"])


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "number %d: %s" % (i, x), y
    return (a[len(b):], "nothing more") if len(a) > len(b) else ("end", b[len(a):])


def action_key(x):
    """the canonical form of an offered action"""
    c = x["command"]
    a = c["arguments"][0]
    if c["command"] == "teal.line.remove":
        return ("remove", a["line"])
    if c["command"] == "teal.label.create":
        return ("create", a["name"])
    if c["command"] == "teal.value.replace":
        return ("replace",) + tuple(one(a["range"])) + (a["name"],)
    if c["command"] == "teal.version.update":
        return ("version", a["version"])
    return ("?", c["command"])


def spec_key(a):
    k, l, b, e, t, n = a[:6]
    return {"remove": ("remove", l), "create": ("create", t), "replace": ("replace", l, b, e, t), "version": ("version", n)}[k]


def compare_actions(m, v, r):
    got = {action_key(x) for x in r or []}
    exp = {spec_key(a) for a in v}
    if any(x["command"]["arguments"][0].get("uri") != m["uri"] for x in r or []):
        return "an action for another document"
    if got != exp:
        return "actions offered besides: %s, lacking: %s" % (sorted(map(str, got - exp)), sorted(map(str, exp - got)))
    return None


LEGEND = ["keyword", "string", "comment", "method", "macro", "value", "number", "operator", "function"]


def judge(ctx, s, methods, skeleton=False):
    """compare a session; violations of this property only"""
    if s.skipped:
        return
    if s.fail:
        ctx.violation("the server died or hung: %s" % s.fail[:200], describe(s))
        return
    if s.out is None:
        ctx.violation("the output is not a sequence of framed messages", dict(describe(s), output=s.raw[-500:].decode("latin1")))
        return
    got, wrong = pair(s)
    if skeleton:
        if not wrong and s.stalled >= 0:
            wrong = "the answers to the messages before message %d were not sent while the client waited for them" % s.stalled
        if wrong:
            ctx.violation(wrong, describe(s))
            return
        for i, o in got.items():
            if outcome(o) != s.exp[i]["o"]:
                ctx.violation("message %d (%s, parameters %s): %s, expected %s" % (i, s.msgs[i]["m"], s.msgs[i]["k"], outcome(o), s.exp[i]["o"]),
                              dict(describe(s, i), response=o))
                return
            if o.get("jsonrpc") != "2.0":
                ctx.violation("a response without the protocol version", dict(describe(s, i), response=o))
                return
        over = [i for i, m in enumerate(s.msgs) if m["m"] == "exit" and m["k"] == "ok"]
        shut = any(m["m"] == "shutdown" and m["k"] not in ("junk", "response") for m in s.msgs[:over[0]]) if over else True
        code = 0 if shut else 1
        if s.code != code:
            ctx.violation("exit status %s, expected %d" % (s.code, code), describe(s))
        return
    legend = LEGEND
    texts = {}
    for i, m in enumerate(s.msgs):
        if m["k"] == "ok" and i in s.exp:
            if m["m"] == "textDocument/didOpen":
                texts[m["uri"]] = m["_texts"][0]
            elif m["m"] == "textDocument/didChange" and m["uri"] in texts and m["_texts"]:
                texts[m["uri"]] = m["_texts"][-1]
        if m["m"] == "initialize" and i in got and outcome(got[i]) == "result":
            p = ((got[i]["result"] or {}).get("capabilities") or {}).get("semanticTokensProvider")
            if p:
                legend = p["legend"]["tokenTypes"]
        if m["m"] not in methods or i not in s.exp or s.exp[i]["o"] == "none":
            continue
        if i not in got:
            if wrong:
                ctx.violation(wrong, describe(s))
                return
            continue
        if outcome(got[i]) != s.exp[i]["o"]:
            ctx.violation("message %d (%s): %s, expected %s" % (i, m["m"], outcome(got[i]), s.exp[i]["o"]),
                          dict(describe(s, i), response=got[i]))
            return
        if s.exp[i]["o"] == "result":
            w = compare(s, i, m, s.exp[i], got[i].get("result"), texts.get(m["uri"]), legend)
            ctx.samples_n += 1
            if w:
                ctx.violation("%s at %d:%d: %s" % (m["m"], m["l"], m["ch"], w),
                              dict(describe(s, i), document=texts.get(m["uri"]), response=got[i]))
                return
    return got


# ------------------------------------------------------------------ documents
EOLS = ["\n", "\n", "\n", "\r\n", "\r"]


NAMES = [["a"], ["a", "b"], ["a", "b", "main"], ["loop", "x1", "a"], ["a", "A", "aa"], ["ab", "abc", "abcd", "b"], ["int", "err", "b"],
         ["a:b", "a", "b:"], ["0", "00", "-1"], ["x", "x:", "X"], ["_" * 40, "_" * 41], ["Sender", "NoOp", "sender"],
         ["n" * 70, "n" * 70 + "m", "n" * 64, "n" * 131]]


def corpus(ctx, per_op, n=10, versions=(10, 10, 10, 9, 8, 5, 1)):
    """documents over every instruction, every operand position with words of its kind and others, right and wrong"""
    import analysis
    ls = [l for l in analysis.op_lines(ctx, per_op) if all(31 < ord(c) < 128 or c == "\t" for c in l)]
    ctx.rng.shuffle(ls)
    out = []
    for i in range(0, len(ls), n):
        h = "#pragma version %d" % ctx.rng.choice(versions)
        if ctx.rng.random() < 0.2:
            h = ctx.rng.choice(["// #pragma mode logicsig\n" + h, h + "\n//#pragma mode logicsig"])
        out.append(gens.join([h] + [gens.spaced(l, ctx.rng) for l in ls[i:i + n]], ctx.rng))
    return out


def class_docs(rng):
    """every instruction with each of its operands as a name and as a number, with optional and repeated ones"""
    ls = []
    for o in gens.OPN:
        imm = gens.OPS[o]["imm"]
        ls.append(" ".join([o] + [gens.good(im["k"], rng) for im in imm for _ in range(3 if im["arr"] else 1)]))
        for i, im in enumerate(imm):
            k = "txn" if im["k"] in ("txna", "itxn") else im["k"]
            if k in gens.FIELDS or im["k"] == "const":
                names = list(gens.CONSTS_OK if im["k"] == "const" else [f["name"] for f in gens.FIELDS[k]
                             if (im["k"] != "txna" or f["arr"]) and (im["k"] != "itxn" or f["itx"])])
                for w in (rng.choice(names), str(rng.randrange(2))):
                    x = [gens.good(q["k"], rng) for q in imm]
                    x[i] = w
                    ls.append(" ".join([o] + x[:i + 1] + [y for q, y in list(zip(imm, x))[i + 1:] if not q["opt"] and not q["arr"]]))
    rng.shuffle(ls)
    return ["#pragma version 10\n" + "\n".join(ls[i:i + 12]) for i in range(0, len(ls), 12)]


def far_doc(rng):
    """words far down and far to the right"""
    out = [rng.choice(["", "// c"])] * rng.choice([0, 0, 0, 33, 70, 130, 260]) + ["#pragma version %d" % rng.choice([10, 10, 3, 1])]
    if rng.random() < 0.3:
        out += [""] * rng.choice([0, 40, 130]) + ["callsub a", "a:", "box_get"][rng.randrange(3):]
    for _ in range(rng.randrange(2, 5)):
        out += [""] * rng.choice([0, 1, 3, 31, 99, 127, 128, 255, 256, 300])
        l = rng.choice(["a:", "b a", "byte 0x6162", "txn 1", "int 5", "bz a", "// c", "switch a b", "byte b64 AAAA", "#pragma version 9", "bogus x"])
        g = lambda: " " * rng.choice([1, 1, 2, 90, 127, 128, 255, 256, 400])
        out.append(rng.choice(["", g()]) + g().join(l.split(" ")) + rng.choice(["", g() + "// far"]))
    return gens.join(out, rng)


def big_doc(rng, k):
    """a long document with many labels and branches"""
    from analysis import long_program
    ls = long_program(rng, rng.randrange(k, k + 80))
    for _ in range(2):                   # many references to one label, on one line
        ls.insert(rng.randrange(1, len(ls)), " ".join([rng.choice(["switch", "match"])] + ["hub"] * rng.randrange(60, 140)))
    ls.insert(rng.choice([0, rng.randrange(1, len(ls))]), "hub:")
    for _ in range(rng.randrange(70, 140)):   # open literals
        ls.insert(rng.randrange(1, len(ls)), rng.choice(['byte "a', '"', 'int 1 "x y']))
    return gens.join([gens.spaced(l, rng) for l in ls], rng)


def big_docs(ctx):
    return [big_doc(ctx.rng, k) for k in ((280, 520) if ctx.quick else (280, 520, 1030, 1030))]


def doc(rng, n=None, clean=False):
    """a document: labels, branches, fields by number, hexadecimal values, comments, some errors"""
    labels = rng.choice(NAMES)
    out = []
    if rng.random() < 0.7:
        if rng.random() < 0.15:
            out += [rng.choice(["", "// c", " ", "//"]) for _ in range(rng.randrange(1, 3))]
        out.append("#pragma version %d" % rng.randrange(1, 11))
        while rng.random() < 0.12:
            out += [rng.choice(["", "// c", "x1:"])] * rng.randrange(2) + ["#pragma version %d" % rng.randrange(1, 11)]
    for _ in range(n or rng.randrange(1, 11)):
        c = rng.random()
        if c < 0.45:
            l = gens.flow_line(rng, labels)
            if l.startswith("#pragma") and rng.random() < 0.7:
                l = "int 1"
        elif c < 0.6:
            l = hinted(rng)
        elif c < 0.85 or clean:
            l = gens.good_line(rng.choice(gens.OPN), rng, labels)
        elif c < 0.92:
            l = gens.messy_line(rng.choice(gens.OPN), rng)
        else:
            l = rng.choice(["", " ", "foo", "a: b", "// c", "  // d", ":", "b", "bz missing", "byte", '"s"', "int x", "//txn", "b  a //x"])
        out.append(gens.spaced(l, rng))
    e = rng.choice(EOLS + ["mix"])
    s = ""
    for i, l in enumerate(out):
        s += l
        if i < len(out) - 1 or rng.random() < 0.6:
            s += rng.choice(["\n", "\r\n", "\r"]) if e == "mix" else e
    if rng.random() < 0.1:
        s += rng.choice(["  ", '"open', "\t"])
    return s if all(ord(c) < 128 for c in s) else "int 1"


def hinted(rng):
    """instructions whose operands have names or texts"""
    c = rng.random()
    if c < 0.5:
        ops = [o for o in gens.OPN if any(i["k"] in gens.FIELDS or i["k"] in ("txna", "itxn") for i in gens.OPS[o]["imm"])]
        o = rng.choice(ops)
        w = [o]
        for im in gens.OPS[o]["imm"]:
            k = "txn" if im["k"] in ("txna", "itxn") else im["k"]
            if k in gens.FIELDS:
                w.append(rng.choice([str(rng.randrange(len(gens.FIELDS[k]) + 1)), rng.choice(gens.FIELDS[k])["name"], "0", "+1", "007", "-1"]))
            else:
                w.append(gens.good(im["k"], rng))
        return " ".join(w)
    h = lambda: "0x" + rng.choice(["", "61", "6162", "22", "5c", "5c6e", "00", "7f", "7e", "20", "ff", "c3a9", "6", "zz", "2f2f", "41" * 9])
    o = rng.choice(["byte", "pushbytes", "pushbytess", "bytecblock", "int", "method", "byte base64", "byte b32", "pushint", "load", "addr",
                    "pushbytess b64", "bytecblock 0x61 base32", "pushbytess base64 QQ==", "bytecblock b32"])
    return " ".join([o] + [h() for _ in range(rng.choice([1, 1, 2, 3]))])


def positions(text, rng, k):
    """positions of interest: word boundaries and others"""
    ls = line_table(text)
    P = set()
    for l, (b, e) in enumerate(ls):
        t = text[b:e]
        for mt in re.finditer(r"[^ \t]+", t):
            P |= {(l, mt.start()), (l, mt.end()), (l, (mt.start() + mt.end()) // 2)}
            if mt.start():
                P.add((l, mt.start() - 1))
            P.add((l, mt.end() + 1))
        P |= {(l, 0), (l, len(t)), (l, len(t) + 3)}
    P |= {(len(ls), 0), (len(ls) + 2, 1)}
    P = sorted(P)
    if k and len(P) > k:
        P = rng.sample(P, k)
    return P


def ends(text, rng, k):
    """positions of words that name labels, in the first and last parts and between"""
    ls = line_table(text)
    P = [(l, mt.start(1) + rng.randrange(2)) for l, (b, e) in enumerate(ls) for mt in re.finditer(r"(?:^|[ \t])(l\d+)", text[b:e])]
    return P[:k // 3] + rng.sample(P, k - 2 * (k // 3)) + P[-(k // 3):] if len(P) > k else P


def ranges(text, rng, k):
    ls = line_table(text)
    n = len(ls)
    out = [(0, 0, n, 0)]
    for _ in range(k):
        a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
        ca, cb = rng.randrange(14), rng.randrange(14)
        if a == b and ca > cb:
            ca, cb = cb, ca
        out.append((a, ca, b, cb))
    return out


def at(m, uri, p, **kw):
    return msg(m, uri=uri, l=p[0], ch=p[1], **kw)


def over(m, uri, g):
    return msg(m, uri=uri, l=g[0], ch=g[1], l2=g[2], ch2=g[3])


# ------------------------------------------------------------------ checks
def binary(ctx, S, cmds, judged):
    """some sessions with the programs that are shipped, over pipes and over a socket"""
    import socket
    for pkg, args in cmds:
        exe = ctx.build_cmd(pkg, os.path.basename(pkg) + "-bin")
        picked = ctx.rng.sample([s for s in S if s.frames], min(len(S), 5 if ctx.quick else 40))
        picked.sort(key=lambda s: any(m.get("m") == "exit" for m in s.msgs))
        for n, s in enumerate(picked):
            keep = s.out, s.raw, s.code, s.fail, s.note, s.stalled
            if n == 0 and not args and not any(m.get("m") == "exit" for m in s.msgs):
                srv = socket.create_server(("127.0.0.1", 0))
                srv.settimeout(30)
                p = subprocess.Popen([exe, "-addr", "127.0.0.1:%d" % srv.getsockname()[1]], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE)
                try:
                    c, _ = srv.accept()
                    c.settimeout(30)
                    c.sendall(s.wire)
                    c.shutdown(socket.SHUT_WR)
                    out = b""
                    while True:
                        b = c.recv(65536)
                        if not b:
                            break
                        out += b
                    c.close()
                    s.code, err = p.wait(30), b""
                except (OSError, subprocess.TimeoutExpired) as e:
                    p.kill()
                    s.code, out, err = -1, b"", str(e).encode()
                srv.close()
            elif n == 1:
                with tempfile.TemporaryDirectory() as d:    # the log that can be asked for changes nothing
                    s.code, out, err = drive([exe] + args + ["-debug", d + "/log"], s.frames)
            else:
                s.code, out, err = drive([exe] + args, s.frames)
            s.raw, s.stalled, s.err = out, -1, False
            s.fail = "exit status %d: %s" % (s.code, err.decode("latin1")[:300]) if s.code not in (0, 1) else None
            s.out = unframe(out)
            s.note += " (program %s)" % " ".join([pkg] + args)
            judged(s)
            s.out, s.raw, s.code, s.fail, s.note, s.stalled = keep


def c14(ctx):
    rng = ctx.rng
    S = []
    for _ in range(260 if ctx.quick else 3000):
        msgs = []
        n = rng.randrange(1, 22)
        closing = rng.choice([None, None, "shutdown", "exit"])
        for j in range(n):
            c = rng.random()
            u = rng.choice(URIS[:2] + [""])
            k = rng.choice(["ok"] * 8 + ["missing", "bad", "empty"])
            if c < 0.25:
                k2 = "ok" if k == "empty" else k
                msgs.append(rng.choice([
                    msg("textDocument/didOpen", id=False, k=k2, uri=u, texts=[small_doc(rng)]),
                    msg("textDocument/didOpen", id=False, k=k2, uri=u, texts=[small_doc(rng)]),
                    msg("textDocument/didChange", id=False, k=k2, uri=u, texts=[small_doc(rng) for _ in range(rng.randrange(3))]),
                    msg("textDocument/didClose", id=False, k=k2, uri=u), msg("textDocument/didSave", id=False, k=k2, uri=u),
                    msg("initialized", id=False), msg("$/cancelRequest", id=False)]))
            elif c < 0.72:
                m = rng.choice(REQS)
                big = rng.random() < 0.12
                f = (lambda: rng.choice([-1, -5, 2 ** 31 - 1, 100000, 5000])) if big else (lambda: rng.randrange(6))
                l, l2 = f(), f()
                msgs.append(msg(m, k=k, uri="" if k == "empty" else u, l=l, ch=f(), l2=l2, ch2=f(), name=rng.choice(["z", "new", "", "a b"]),
                                id=rng.random() < 0.93))
            elif c < 0.8:
                msgs.append(msg("workspace/executeCommand", k=k, uri=u, l=rng.randrange(4),
                                cmd="" if k == "empty" else rng.choice(COMMANDS + ["", "teal.unknown"]), n=rng.choice([1, 1, 1, 0, 2])))
            elif c < 0.85:
                msgs.append(msg("initialize", k=k, set="----" if k in ("missing", "bad", "empty") else "".join(rng.choice("tf-") for _ in range(4))))
            elif c < 0.89:
                msgs.append(msg(rng.choice(["foo", "textDocument/foo", "workspace/symbol", "textDocument/didOpenX", "$/foo", "Shutdown",
                                            "textDocument/references", "textDocument/"]), k=rng.choice(["ok", "missing"])))
            elif c < 0.94:
                msgs.append(msg(rng.choice(["", "shutdown", "textDocument/hover"]), k="response", id=rng.random() < 0.8))
            elif c < 0.96:
                msgs.append(msg("", k="ok", id=rng.random() < 0.8))
            else:
                msgs.append(msg("", k="junk", id=False))
        if closing == "shutdown":
            msgs.insert(rng.randrange(len(msgs) + 1), msg("shutdown", k=rng.choice(["ok", "missing"])))
            if rng.random() < 0.5:
                msgs.append(msg("exit", id=False))
                msgs.append(msg("textDocument/diagnostic", uri=URIS[0]))
        elif closing == "exit":
            msgs.insert(rng.randrange(len(msgs) + 1), msg("exit", id=False))
        S.append(Session(msgs, "random session"))
    # long sessions
    for k in ((300,) if ctx.quick else (300, 700, 1100)):
        msgs = []
        for j in range(k):
            u = "file:///%d.teal" % rng.randrange(12)
            c = rng.random()
            msgs.append(opened(u, small_doc(rng)) if c < 0.15 else msg("textDocument/didClose", id=False, uri=u) if c < 0.2 else
                        msg("foo", k="missing") if c < 0.25 else msg("", k="response") if c < 0.3 else
                        msg(rng.choice(REQS), uri=u, l=rng.randrange(4), ch=rng.randrange(6), l2=5, ch2=0, name="z", id=rng.random() < 0.95))
        S.append(Session(msgs, "long session"))
    run_spec(ctx, S, cfg="MCLspProto")
    for s in S[::4]:
        s.paced = True
    run_real(ctx, S)
    binary(ctx, S, [["./cmd/tealsp", []]], lambda s: judge(ctx, s, [], skeleton=True))
    for s in S:
        judge(ctx, s, (), skeleton=True)
    ctx.sample(session=[m["m"] for m in S[0].msgs], responses=str([outcome(o) if "method" not in o else o["method"] for o in S[0].out or []]))
    hostile(ctx)
    ctx.notes["sessions"] = len(S)
    if ctx.violations:
        return
    u = URIS[0]
    A = [msg("initialize"), msg("shutdown", k="missing"), msg("exit", id=False), opened(u, "b a\na:\n"),
         msg("textDocument/didClose", id=False, uri=u), at("textDocument/hover", u, (0, 0)), msg("textDocument/documentSymbol", k="bad"),
         msg("workspace/executeCommand", uri=u, cmd="teal.line.remove"), msg("foo", k="missing"), msg("", k="response"),
         msg("textDocument/definition", k="missing", id=False), msg("textDocument/diagnostic", uri=u)]
    if not ctx.quick:
        A += [msg("", k="junk", id=False), changed(u, "int 1"), msg("initialized", id=False), at("textDocument/rename", u, (1, 0), name="z")]
    X = every_session(ctx, A, 4)
    run_real(ctx, X)
    for s in X:
        judge(ctx, s, (), skeleton=True)
    ctx.notes["exhaustive_scope"] = "all %d sessions of up to 4 messages over %d messages" % (len(X), len(A))




def every_session(ctx, alphabet, depth):
    """all sessions of the given length over an alphabet of messages, with the specification's answers"""
    base = {"id": 0, "alphabet": [spec_msg(m) for m in alphabet], "depth": depth, "addrs": []}

    def bad(text, sh):
        i = text.find("is violated")
        at = re.findall(r"^/\\ ([ir]) = (\d+)", text, re.M)[-2:]
        at = {k: int(v) for k, v in at}
        ms = sessions[sh[at["r"] - 1]["id"]].msgs[:at["i"]] if len(at) == 2 else []
        raise Broken("LspServer: the specification fails: %s\n%s" % (text[max(0, i - 60):i + 12].split("\n")[-1],
            "\n".join(str({k: v for k, v in m.items() if v and k not in ("texts", "name", "set")}) for m in ms)))
    # one exploration per first message
    recs = [dict(base, first=a + 1) for a in range(len(alphabet))]
    S = []
    res = ctx.tlc("MCLspX", recs, per_shard=1, on_violation=bad, one_each=True)
    for o in res.get(0, []):
        s = Session([alphabet[a - 1] for a in o["h"]], "exhaustive")
        s.exp = {i: {"o": x["o"], "n": x["n"], "v": json.loads(x["v"])} for i, x in enumerate(o["outs"])}
        s.code_exp = o["code"]
        S.append(s)
    ctx.traces += len(S)
    return S


def small_doc(rng):
    return rng.choice(["", "int 1", "b a\na:\n", "#pragma version 8\ntxn 0\nbyte 0x41\nb missing", "a:\nb a", doc(rng, 3)])


def hostile(ctx):
    """contents outside the scope of the specification's texts: only liveness and the sequence of answers are judged"""
    rng = ctx.rng
    texts = ["\x00", "é" * 3000, "a" * 70000, "\n" * 3000, '"' * 2001, "b a\n" * 400, "a:\n" * 400, "\ufeffint 1", "\u2028int 1\u2029",
             "byte 0x" + "41" * 5000, "int " + "9" * 4000, "byte base32 A", "//" * 3000, "switch " + "a " * 800, "😀: b 😀", "\r" * 50 + "b",
             "pushints " + "1 " * 500, "#pragma version 99999999999999999999", "byte \"\\x\"", "byte b32(A=)", "a\tb\x0bc\x0c", "// " + "c" * 1300000 + "\nint 1", "int 1\n" * 3000,
             "\n".join("l%d:" % i for i in range(1500)) + "\nb l7"]
    S = []
    for t in texts:
        for _ in range(1 if ctx.quick else 4):
            msgs = [opened(URIS[0], t)]
            for m in REQS + [rng.choice(REQS) for _ in range(4)]:
                f = lambda: rng.choice([0, 0, 1, 2, 3, -1, 2 ** 31 - 1, 2 ** 40, -2 ** 40, 399])
                msgs.append(msg(m, uri=URIS[0], l=f(), ch=f(), l2=f(), ch2=f(), name=rng.choice(["z", "é", ""])))
            for c in COMMANDS:
                msgs.append(msg("workspace/executeCommand", uri=URIS[0], l=rng.choice([-1, 0, 2 ** 40]), cmd=c, name="a"))
            S.append(Session(msgs, "hostile text"))
    for t in corpus(ctx, 1 if ctx.quick else 4, n=6):
        msgs = [opened(URIS[0], t)]
        ls = line_table(t)
        for l, (b, e) in enumerate(ls):
            w = [mt.span() for mt in re.finditer(r"[^ \t]+", t[b:e])]
            C = {x for p, q in w for x in (p, q)} | {e - b, e - b + 1}
            for ch in C if len(C) < 5 else rng.sample(sorted(C), 4):
                for m in rng.sample(POS, 3) + ["textDocument/rename"]:
                    msgs.append(msg(m, uri=URIS[0], l=l, ch=ch, name="z"))
        for _ in range(3):
            l, l2 = sorted((rng.randrange(len(ls) + 1), rng.randrange(len(ls) + 1)))
            msgs += [msg(m, uri=URIS[0], l=l, ch=rng.randrange(12), l2=l2, ch2=rng.randrange(12)) for m in RANGE]
        msgs += [msg(m, uri=URIS[0]) for m in PLAIN]
        S.append(Session(msgs, "every instruction"))
    for s in S:
        # every request is answered; formatting a very long line may fail
        s.exp = {i: {"o": "result" if m["id"] else "none", "n": 1 if m["m"] == "workspace/executeCommand" else 0, "v": []}
                 for i, m in enumerate(s.msgs)}
    run_real(ctx, S)
    for s in S:
        if s.skipped:
            continue
        if s.fail or s.out is None:
            ctx.violation("the server died or hung or lost its framing: %s" % (s.fail or "")[:200],
                          {"text": s.msgs[0]["_texts"][0][:200], "messages": [[m["m"], m["l"], m["ch"], m["l2"], m["ch2"]] for m in s.msgs[1:]]})
            return
        _, wrong = pair(s)
        if wrong:
            ctx.violation(wrong, {"text": s.msgs[0]["_texts"][0][:200], "messages": [[m["m"], m["l"], m["ch"], m["l2"], m["ch2"]] for m in s.msgs[1:]]})
            return
    ctx.traces += len(S)


def canon(v):
    """answers up to the order of unordered lists"""
    if isinstance(v, list):
        return sorted((canon(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return v


def near(rng, t):
    """texts that are easily taken for t"""
    out = [t + "\n", t + " ", t.swapcase(), t.replace("a", "c"), t.replace("1", "2"), t[::-1]]
    if t:
        i = rng.randrange(len(t))
        out += [t[:-1] + ("x" if t[-1] != "x" else "y"), ("x" if t[0] != "x" else "y") + t[1:], t[:i] + rng.choice("ab \n") + t[i + 1:], t[:-1], t[1:]]
    ls = t.split("\n")
    rng.shuffle(ls)
    out.append("\n".join(ls))
    return rng.sample(out, 4)


LIKE = [["file:///a.teal", "file:///A.teal", "file:///a.teal/"], ["file:///a.teal", "file:///b.teal", "untitled:c"],
        ["file:///a.teal", "file:///%61.teal", "a.teal"], ["", " ", "file:///x"], ["file:///d/a.teal", "file:///e/a.teal", "file:///d//a.teal"],
        ["file:///a.teal", "file:///a.teal#x", "file:///a.teal?y"], ["u", "U", "u1"]]


def c15(ctx):
    """the text every answer has to be about is the specification's; what a fresh server answers for it is the real one's"""
    rng = ctx.rng
    S = []
    for _ in range(160 if ctx.quick else 1500):
        T = [doc(rng, rng.randrange(1, 6)) for _ in range(rng.randrange(2, 5))]
        T += [T[0] + "\nb zz", T[0].replace("a", "bb")] + near(rng, rng.choice(T)) + ["aa:\nb aa\n", "bb:\nb bb\n", "", rng.choice(["", " ", "\n", "//"])]
        msgs = [msg("initialize", set="----")] if rng.random() < 0.7 else []
        uris = rng.choice(LIKE)
        msgs += [opened(u, rng.choice(T)) for u in uris if rng.random() < 0.6]
        for j in range(rng.randrange(10, 30)):
            u = rng.choice(uris)
            c = rng.random()
            if c < 0.2:
                msgs.append(opened(u, rng.choice(T)))
            elif c < 0.38:
                msgs.append(changed(u, *[rng.choice(T + T[-2:] * 2) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))]))
            elif c < 0.44:
                msgs.append(msg("textDocument/didClose", id=False, uri=u))
            elif c < 0.47:
                msgs.append(msg("textDocument/didSave", id=False, uri=u))
            else:
                m = rng.choice(REQS)
                msgs.append(msg(m, uri=u, l=rng.randrange(6), ch=rng.randrange(8), l2=rng.randrange(3, 7), ch2=rng.randrange(8), name="zz9"))
        S.append(Session(msgs, "edits and requests"))
    # many documents at once, a long history of one, long texts
    n = 140 if ctx.quick else 300
    U = ["file:///w/%d.teal" % i for i in range(n)]
    ask = lambda u: msg(rng.choice(["textDocument/diagnostic", "textDocument/documentSymbol", "textDocument/semanticTokens/full", "textDocument/formatting"]), uri=u)
    T = ["l%d:\nb l%d\nint %d" % (i, rng.randrange(n), i) for i in range(n)]
    msgs = [opened(u, t) for u, t in zip(U, T)] + [ask(u) for u in rng.sample(U, 40) + U[:5] + U[-3:]]
    msgs += [m for u in rng.sample(U, 20) for m in (changed(u, rng.choice(T)), ask(rng.choice(U)), ask(u))]
    msgs += [m for u in rng.sample(U, 20) for m in (msg("textDocument/didClose", id=False, uri=u), ask(rng.choice(U)))]
    S.append(Session(msgs, "many documents"))
    msgs = [opened(U[0], T[0]), opened(U[1], T[1])]
    for i in range(2 * n):
        msgs += [changed(U[0], rng.choice(T))] + ([ask(U[0])] if rng.random() < 0.3 else []) + ([ask(U[1])] if rng.random() < 0.05 else [])
    S.append(Session(msgs + [ask(U[0]), ask(U[1])], "a long history"))
    for k in ((300,) if ctx.quick else (300, 1030)):
        t, t2 = big_doc(rng, k), big_doc(rng, k)
        cut = t[:-9] + rng.choice(["x", "\n"]) + t[-8:]
        msgs = [opened(U[0], t), ask(U[0]), opened(U[1], t2), ask(U[0]), changed(U[0], cut), ask(U[0]), ask(U[1]), changed(U[1], t), ask(U[1]), changed(U[0], t2, t2 + " "), ask(U[0])]
        S.append(Session(msgs, "long texts"))
    run_spec(ctx, S, cfg="MCLspProto")
    run_real(ctx, S)
    fresh, keys = [], []
    for s in S:
        if s.skipped:
            continue
        if s.fail or s.out is None:
            ctx.violation("the server died: %s" % s.fail, describe(s))
            return
        s.got, s.wrong = pair(s)
        if s.wrong:
            ctx.violation(s.wrong, describe(s))
            return
        texts = {}
        for i, m in enumerate(s.msgs):
            if m["m"] == "textDocument/didOpen":
                texts[m["uri"]] = m["_texts"][0]
            elif m["m"] == "textDocument/didChange" and m["uri"] in texts and m["_texts"]:
                texts[m["uri"]] = m["_texts"][-1]
            elif m["m"] == "textDocument/didClose":
                texts.pop(m["uri"], None)
            if i not in s.got or m["m"] == "initialize":
                continue
            # the specification keeps exactly these texts (InvFresh)
            if outcome(s.got[i]) != s.exp[i]["o"]:
                ctx.violation("message %d (%s) about %s: %s, expected %s" % (i, m["m"], m["uri"], outcome(s.got[i]), s.exp[i]["o"]),
                              dict(describe(s, i), response=s.got[i]))
                return
            if s.exp[i]["o"] == "result":
                if m["uri"] not in texts:       # diagnostics of a document that is not open
                    if s.got[i]["result"].get("items"):
                        ctx.violation("diagnostics of a document that is not open", describe(s, i))
                        return
                    continue
                fresh.append(Session([opened(m["uri"], texts[m["uri"]]), m], ""))
                keys.append((s, i))
    run_real(ctx, fresh)
    for f, (s, i) in zip(fresh, keys):
        if f.skipped or f.fail or not f.out:
            continue
        want = canon(f.out[-1].get("result"))
        have = canon(s.got[i].get("result"))
        ctx.samples_n += 1
        if want != have:
            ctx.violation("message %d (%s) is not answered as a fresh server with the latest text does" % (i, s.msgs[i]["m"]),
                          dict(describe(s, i), latest=f.msgs[0]["_texts"][0], answer=have, fresh=want))
            return
    ctx.notes["answers_compared_with_a_fresh_server"] = len(keys)
    # every session over two documents and two texts
    t1, t2 = "b a\na:\n", "x:\nb x\n"      # of the same length
    a, b = URIS[:2]
    q = "textDocument/documentHighlight"
    A = [opened(a, t1), changed(a, t2), changed(a, t2, t1), msg("textDocument/didClose", id=False, uri=a), at(q, a, (1, 0)),
         opened(b, t2), changed(b, t1), msg("textDocument/didClose", id=False, uri=b), at(q, b, (1, 0)),
         msg("textDocument/diagnostic", uri=a)]
    X = every_session(ctx, A, 4 if ctx.quick else 5)
    run_real(ctx, X)
    for s in X:
        judge(ctx, s, {q})
        if ctx.violations:
            return
    ctx.notes["exhaustive_scope"] = "all %d sessions of %d messages over %d messages" % (len(X), 4 if ctx.quick else 5, len(A))
    ctx.sample(session=[[m["m"], m["uri"]] for m in S[0].msgs])


def run_docs(ctx, S, methods, per_shard=20, big=()):
    """big: sessions over long documents, without the properties of the answers"""
    run_spec(ctx, S, per_shard=per_shard)
    if big:
        run_spec(ctx, big, per_shard=1, cfg="MCLspProto")
        S += big
        ctx.notes["long_documents"] = len(big)
    run_real(ctx, S)
    for s in S:
        judge(ctx, s, methods)
        if len(ctx.violations) > 5:
            break
    ctx.notes["documents"] = len(S)
    ctx.notes["answers_compared"] = ctx.samples_n
    if S:
        ctx.sample(document=S[0].msgs[-1]["_texts"] or [m["_texts"] for m in S[0].msgs if m["_texts"]][-1],
                   requests=[[m["m"], m["l"], m["ch"]] for m in S[0].msgs if m["id"]][:12])


def c16(ctx):
    rng = ctx.rng
    S = []
    N = 700 if ctx.quick else 6000
    for i in range(N):
        c = rng.random()
        t = doc(rng) if c < 0.6 else gens.join(gens.any_program(rng), rng) if c < 0.9 else gens.join(gens.flow_program(rng), rng)
        if any(ord(x) >= 128 or ord(x) < 9 for x in t):
            t = doc(rng)
        u = rng.choice(URIS)
        msgs = [opened(u, t), msg("textDocument/diagnostic", uri=u)]
        if rng.random() < 0.3:
            msgs += [changed(u, doc(rng)), msg("textDocument/diagnostic", uri=u), msg("textDocument/diagnostic", uri=u)]
        if rng.random() < 0.2:
            msgs += [msg("textDocument/didClose", id=False, uri=u), msg("textDocument/diagnostic", uri=u)]
        if rng.random() < 0.1:
            msgs.insert(0, msg("textDocument/diagnostic", uri=u))
        S.append(Session(msgs, "diagnostics"))
    for t in corpus(ctx, 2 if ctx.quick else 0) + [far_doc(rng) for _ in range(40 if ctx.quick else 400)]:
        S.append(Session([opened(URIS[0], t), msg("textDocument/diagnostic", uri=URIS[0])], "every instruction"))
    big = [Session([opened(URIS[0], t), msg("textDocument/diagnostic", uri=URIS[0])], "long document") for t in big_docs(ctx)]
    # long words in error
    x = lambda c: c * rng.randrange(1030, 2200)
    t = "\n".join(["int " + x("x"), x("y"), "b " + x("l"), "err", "int 1 " + x("2"), "byte 0x" + x("z"), "load " + x("9"), "switch" + " a" * 700, 'byte "' + x("s"), x("m") + ":", "#pragma " + x("p"), "txn " + x("f")])
    big.append(Session([opened(URIS[0], t), msg("textDocument/diagnostic", uri=URIS[0])], "long words"))
    run_docs(ctx, S, {"textDocument/diagnostic"}, per_shard=60, big=big)
    # messages: those of the analysis itself
    inputs, keys = [], []
    for s in S:
        if s.skipped or s.fail or s.out is None:
            continue
        got, wrong = pair(s)
        text = None
        for i, m in enumerate(s.msgs):
            if m["_texts"]:
                text = m["_texts"][-1]
            if m["m"] == "textDocument/didClose":
                text = None
            if i in got and text is not None and outcome(got[i]) == "result":
                inputs.append({"id": len(inputs), "op": "analyze", "src": b64(text)})
                keys.append((s, i, got[i]))
    res = ctx.harness(inputs)
    for n, (s, i, o) in enumerate(keys):
        a = res.get(n, {})
        if "diags" not in a:
            continue
        want = sorted(d[1:] for d in a["diags"])
        have = sorted(one(x["range"]) + [x.get("severity"), x["message"]] for x in o["result"]["items"])
        if want != have:
            ctx.violation("the report is not the analysis of the document: %s instead of %s" % (have, want), dict(describe(s, i)))
            return


def label_doc(rng):
    """little but labels and references to them"""
    names = rng.choice(NAMES)
    L = lambda: rng.choice(names)
    out = ["#pragma version 8"] if rng.random() < 0.7 else []
    for _ in range(rng.randrange(2, 9)):
        c = rng.random()
        out.append(gens.spaced(L() + ":" if c < 0.4 else rng.choice(["b ", "bz ", "bnz ", "callsub "]) + L() if c < 0.65 else
                               " ".join([rng.choice(["switch", "match"])] + [L() for _ in range(rng.randrange(5))]) if c < 0.85 else
                               rng.choice(["b", "b a a", "bz  ", "int 1", "// a:", "a: a", "switch a // b", "proto 1 2", "retsub"]), rng))
    return gens.join(out, rng)


def c17(ctx):
    rng = ctx.rng
    S = []
    for j in range(360 if ctx.quick else 3000):
        t = doc(rng, clean=rng.random() < 0.8) if j % 5 else far_doc(rng) if j % 25 == 0 else label_doc(rng)
        msgs = [opened(URIS[0], t)]
        if rng.random() < 0.2:
            msgs.insert(0, msg("initialize", set="--- "[:3] + rng.choice("tf-")))
        for p in positions(t, rng, 24):
            msgs.append(at(rng.choice(["textDocument/definition", "textDocument/documentHighlight"]), URIS[0], p))
        msgs += [msg("textDocument/documentSymbol", uri=URIS[0]), msg("textDocument/codeLens", uri=URIS[0])]
        S.append(Session(msgs, "navigation"))
    big = []
    for t in big_docs(ctx):
        big.append(Session([opened(URIS[0], t)] + [at(m, URIS[0], p) for m in ("textDocument/definition", "textDocument/documentHighlight") for p in ends(t, rng, 8)] +
                           [msg("textDocument/documentSymbol", uri=URIS[0]), msg("textDocument/codeLens", uri=URIS[0])], "long document"))
    run_docs(ctx, S, {"textDocument/definition", "textDocument/documentHighlight", "textDocument/documentSymbol", "textDocument/codeLens"},
             per_shard=8, big=big)


def c18(ctx):
    rng = ctx.rng
    S = []
    for j in range(340 if ctx.quick else 3000):
        t = doc(rng, clean=rng.random() < 0.8) if j % 3 else far_doc(rng) if j % 30 == 0 else label_doc(rng)
        msgs = [opened(URIS[0], t)]
        for p in positions(t, rng, 16):
            msgs.append(at("textDocument/prepareRename", URIS[0], p))
            msgs.append(at("textDocument/rename", URIS[0], p, name=rng.choice(["z", "zz9", "a_much_longer_name", "q:", "int2"])))
        S.append(Session(msgs, "rename"))
    big = []
    for t in big_docs(ctx):
        big.append(Session([opened(URIS[0], t)] + [at(m, URIS[0], p, name=rng.choice(["z", "n" * 300])) for m in ("textDocument/prepareRename", "textDocument/rename") for p in ends(t, rng, 6)],
                           "long document"))
    run_docs(ctx, S, {"textDocument/prepareRename", "textDocument/rename"}, per_shard=8, big=big)


def c19(ctx):
    rng = ctx.rng
    S = []
    for j in range(400 if ctx.quick else 4000):
        t = doc(rng) if j % 4 else rng.choice([label_doc, label_doc, far_doc])(rng)
        msgs = [opened(URIS[0], t)]
        for g in ranges(t, rng, 4):
            msgs.append(over("textDocument/codeAction", URIS[0], g))
        S.append(Session(msgs, "actions"))
    big = []
    for t in big_docs(ctx):
        n = len(line_table(t))
        a = rng.randrange(n // 2, n)
        big.append(Session([opened(URIS[0], t)] + [over("textDocument/codeAction", URIS[0], g) for g in ((0, 0, 3, 0), (a, 0, a + 12, 0), (n - 9, 0, n + 1, 0))], "long document"))
    run_docs(ctx, S, {"textDocument/codeAction"}, per_shard=14, big=big)
    if ctx.violations:
        return
    # a client executes what it was offered
    E = []
    for s in S:
        got, _ = pair(s)
        text = s.msgs[0]["_texts"][0]
        done = set()
        for i in got:
            exp = {spec_key(a): a for a in s.exp[i]["v"]}
            for x in got[i].get("result") or []:
                key = action_key(x)
                if key in done:
                    continue
                done.add(key)
                if exp[key][0] == "version" and not exp[key][7]:
                    continue
                c = x["command"]
                e = Session([opened(URIS[0], text),
                             msg("workspace/executeCommand", uri=URIS[0], cmd=c["command"], arg=c["arguments"])], "execute %s" % (key,))
                e.key, e.want, e.text = key, exp[key][6], text
                e.exp = {0: {"o": "none", "n": 0}, 1: {"o": "result", "n": 1}}
                E.append(e)
    run_real(ctx, E)
    for e in E:
        if e.skipped:
            continue
        if e.fail or e.out is None:
            ctx.violation("executing %s: the server died" % (e.key,), describe(e))
            return
        got, wrong = pair(e)
        if wrong or outcome(got[1]) != "result":
            ctx.violation("executing %s: %s" % (e.key, wrong or "an error"), describe(e))
            return
        rq = e.requests.get(1)
        if not rq:
            ctx.violation("executing %s: no edit is asked for" % (e.key,), describe(e))
            return
        es = edits_of(rq["params"]["edit"], URIS[0])
        after = apply_edits(e.text, es) if es is not None else None
        ctx.samples_n += 1
        if after != e.want:
            ctx.violation("executing %s: the text becomes %r, expected %r" % (e.key, after, e.want), dict(describe(e), request=rq))
            return
    ctx.traces += len(E)
    ctx.notes["actions_executed"] = len(E)
    if not ctx.violations:
        commands(ctx)
    known_c19(ctx)


def commands(ctx):
    """commands given directly, in sequence, about several documents that change in between"""
    rng = ctx.rng
    S = []
    for j in range(60 if ctx.quick else 1200):
        texts = {}
        msgs = []
        for u in rng.sample(URIS, rng.randrange(1, 3)):
            texts[u] = doc(rng, rng.randrange(1, 7))
            msgs.append(opened(u, texts[u]))
        for _ in range(rng.randrange(3, 8)):
            u = rng.choice(list(texts))
            if rng.random() < 0.25:
                texts[u] = doc(rng, rng.randrange(1, 7))
                msgs.append(changed(u, texts[u]))
                continue
            ls = line_table(texts[u])
            l, l2 = sorted((rng.randrange(len(ls) + 2), rng.randrange(len(ls) + 2)))
            ch, ch2 = sorted((rng.randrange(9), rng.randrange(9)))
            defs = re.findall(r"^[ \t]*([^ \t:]+):", texts[u].replace("\r", "\n"), re.M) + ["a", "zz", "new"]
            c = rng.choice(COMMANDS)
            msgs.append(msg("workspace/executeCommand", uri=u, cmd=c, l=l, ch=ch, l2=l2, ch2=ch2, name=rng.choice(defs), v=rng.randrange(1, 11)))
        S.append(Session(msgs, "commands"))
    # far down, and many of them
    far = []
    for k in (1040, rng.randrange(100, 300)):
        t = "\n" * k + "b a\na:\n#pragma version 3\nbox_get\nc:"
        msgs = [opened(URIS[0], t)]
        for j in range(24):
            l = k + rng.randrange(6)
            msgs.append(msg("workspace/executeCommand", uri=URIS[0], cmd=COMMANDS[j % len(COMMANDS)], l=l, ch=0, l2=l, ch2=1, name=rng.choice(["a", "c", "new"]), v=rng.randrange(1, 11)))
        far.append(Session(msgs, "commands, far down"))
    run_spec(ctx, S)
    run_spec(ctx, far, per_shard=1, cfg="MCLspProto")
    S += far
    run_real(ctx, S)
    for s in S:
        if s.skipped:
            continue
        if s.fail or s.out is None:
            ctx.violation("the server died or hung: %s" % str(s.fail)[:200], describe(s))
            return
        got, wrong = pair(s)
        if wrong:
            ctx.violation(wrong, describe(s))
            return
        texts = {}
        for i, m in enumerate(s.msgs):
            if m["m"] != "workspace/executeCommand":
                texts[m["uri"]] = m["_texts"][-1]
                continue
            if outcome(got[i]) != s.exp[i]["o"]:
                ctx.violation("message %d (%s): %s" % (i, m["cmd"], outcome(got[i])), describe(s, i))
                return
            rq = s.requests.get(i)
            if not rq:
                ctx.violation("message %d (%s): no edit is asked for" % (i, m["cmd"]), describe(s, i))
                return
            es = edits_of(rq["params"]["edit"], m["uri"])
            after = apply_edits(texts[m["uri"]], es) if es is not None else None
            ctx.samples_n += 1
            if after != s.exp[i]["v"][0]:
                ctx.violation("message %d (%s): the text becomes %r, expected %r" % (i, m["cmd"], after, s.exp[i]["v"][0]), dict(describe(s, i), request=rq))
                return
    ctx.notes["commands_given"] = sum(m["m"] == "workspace/executeCommand" for s in S for m in s.msgs)


def known_c19(ctx):
    """the recorded finding: a version update in a document with several version pragmas edits the last one"""
    text = "#pragma version 2\ncallsub a\na:\nretsub\n#pragma version 3\n"
    e = Session([opened(URIS[0], text), msg("textDocument/codeAction", uri=URIS[0], l=1, ch=0, l2=1, ch2=3)], "")
    e.exp = {0: {"o": "none", "n": 0}, 1: {"o": "result", "n": 0}}
    run_real(ctx, [e])
    got, wrong = pair(e)
    if wrong:
        return
    c = [x["command"] for x in got[1]["result"] if x["command"]["command"] == "teal.version.update"]
    if not c:
        return
    f = Session([opened(URIS[0], text), msg("workspace/executeCommand", uri=URIS[0], cmd=c[0]["command"], arg=c[0]["arguments"])], "")
    f.exp = {0: {"o": "none", "n": 0}, 1: {"o": "result", "n": 1}}
    run_real(ctx, [f])
    got, wrong = pair(f)
    if wrong or 1 not in f.requests:
        return
    after = apply_edits(text, edits_of(f.requests[1]["params"]["edit"], URIS[0]))
    if after and after.startswith("#pragma version 2\n") and after.endswith("#pragma version 4\n"):
        print("KNOWN-FINDING: property=C19 a version update in a document with several version pragmas edits the last one: "
              "%r stays in need of version 4 on line 1" % text)


def expand(t):
    """a snippet's text with its placeholders as they are offered; the stops that have more than one text"""
    seen, bad = {}, []
    stop = re.compile(r"\$\{?(\d+)(?::([^}]*)\}|\}|)")
    for mt in stop.finditer(t):
        if mt.group(2) is not None and seen.setdefault(mt.group(1), mt.group(2)) != mt.group(2):
            bad.append(mt.group(1))
    return stop.sub(lambda mt: seen.get(mt.group(1), ""), t), bad


def snippets(ctx, S):
    """the snippets are the same in every answer, and what they insert is accepted, with every label it needs"""
    all_, first = {}, None
    for s in S:
        if s.skipped or s.fail or s.out is None or ctx.violations:
            continue
        got, _ = pair(s)
        for i, o in got.items():
            if s.msgs[i]["m"] != "textDocument/completion" or s.exp[i]["o"] != "result" or s.exp[i]["v"]["k"] != "op":
                continue
            r = o.get("result") or []
            here = {x["label"]: x for x in (r["items"] if isinstance(r, dict) else r) if x.get("kind") == 15}
            if first is None:
                first = here
            if here != first:
                ctx.violation("the snippets offered differ from those offered elsewhere: %s" % sorted(here), dict(describe(s, i), elsewhere=first))
                return
            all_.update(here)
    if ctx.violations or not all_:
        return
    onc = {n.lower(): v for n, v in gens.TABLES["consts"].items() if n in ("NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication")}
    T = []
    for k, x in sorted(all_.items()):
        t, bad = x.get("insertText") or x["label"], []
        if x.get("insertTextFormat") == 2:
            t, bad = expand(t)
        if bad:
            ctx.violation("snippet %s: stops %s have several texts" % (k, bad), dict(snippet=x))
        ls = [l.split() for l in re.split(r"\r\n|\r|\n", t)]
        for l, m in zip(ls, ls[1:]):
            if l == ["txn", "OnCompletion"] and m[:1] == ["switch"] and m[1:] != sorted(onc, key=onc.get):
                ctx.violation("snippet %s goes to %s by OnCompletion" % (k, m[1:]), dict(snippet=x))
        T.append((k, x, Session([opened(URIS[0], "#pragma version 10\n" + t), msg("textDocument/diagnostic", uri=URIS[0])], "snippet " + k)))
    run_spec(ctx, [s for _, _, s in T])
    run_real(ctx, [s for _, _, s in T])
    for k, x, s in T:
        judge(ctx, s, {"textDocument/diagnostic"})
        bad = [d for d in s.exp[1]["v"] if d[3] == 1]
        if bad:
            ctx.violation("snippet %s inserts what is not accepted: %s" % (k, bad), dict(snippet=x, text=s.msgs[0]["_texts"][0]))
    ctx.notes["snippets"] = len(T)


def c20(ctx):
    rng = ctx.rng
    S = []
    M = ["textDocument/completion", "textDocument/hover", "textDocument/signatureHelp"]
    # every instruction, at each of its words
    ops = list(gens.OPN)
    rng.shuffle(ops)
    for j in range(0, len(ops), 6):
        lines = ["#pragma version %d" % rng.choice([10, 10, 10, rng.randrange(1, 10)]), "a:"]
        if rng.random() < 0.25:
            lines.insert(0, "//#pragma mode logicsig")
        for o in ops[j:j + 6]:
            lines.append(gens.good_line(o, rng, ["a", "b"]))
        t = "\n".join(lines) + "\n"
        msgs = [opened(URIS[0], t)]
        for l, ln in enumerate(lines):
            if l < 2:
                continue
            ws = [mt.span() for mt in re.finditer(r"[^ ]+", ln)]
            for w in ws[:5]:
                msgs.append(at("textDocument/hover", URIS[0], (l, rng.choice([w[0], w[1], (w[0] + w[1]) // 2]))))
            msgs.append(at("textDocument/signatureHelp", URIS[0], (l, rng.randrange(len(ln) + 2))))
            for w in ws[1:4]:
                msgs.append(at("textDocument/completion", URIS[0], (l, rng.choice([w[0], w[1]]))))
            msgs.append(at("textDocument/completion", URIS[0], (l, len(ln) + 1)))
        S.append(Session(msgs, "every instruction"))
    # what may be written in every operand position, over the versions and modes
    for v in range(1, 12):
        for sig in (False, True):
            lines = ["#pragma version %d" % v] + (["// #pragma mode logicsig"] if sig else [])
            msgs = []
            some = ops if not ctx.quick else [o for o in ops if any(im["k"] in gens.FIELDS or im["k"] in ("txna", "itxn") for im in gens.OPS[o]["imm"])
                                              or rng.random() < 0.1]
            for o in some:
                kinds = gens.OPS[o]["imm"]
                for k in range(len(kinds) + 1):
                    if k < len(kinds) and ctx.quick and kinds[k]["k"] not in gens.FIELDS and kinds[k]["k"] not in ("txna", "itxn") and rng.random() < 0.7:
                        continue
                    if k < len(kinds) and (kinds[k]["k"] in gens.FIELDS or kinds[k]["k"] in ("txna", "itxn")) and ctx.quick and rng.random() < 0.6:
                        continue
                    l = " ".join([o] + [gens.good(im["k"], rng).split(" ")[-1] for im in kinds[:k]]) + " "
                    msgs.append(at("textDocument/completion", URIS[0], (len(lines), len(l))))
                    if rng.random() < 0.3:
                        msgs.append(at("textDocument/signatureHelp", URIS[0], (len(lines), len(l))))
                    lines.append(l)
            for i in range(0, len(msgs), 40):
                S.append(Session([opened(URIS[0], "\n".join(lines) + "\n")] + msgs[i:i + 40], "operands by version"))
    # every word of right and wrong lines
    for t in corpus(ctx, 1 if ctx.quick else 6, n=8) + [far_doc(rng) for _ in range(10 if ctx.quick else 100)]:
        msgs = [opened(URIS[0], t)]
        for l, (b, e) in enumerate(line_table(t)):
            for mt in list(re.finditer(r"[^ \t]+", t[b:e]))[:6]:
                if rng.random() < (0.6 if ctx.quick else 1):
                    msgs.append(at(rng.choice(M + ["textDocument/hover"] * 3), URIS[0], (l, rng.choice([mt.start(), mt.end(), mt.start() + 1]))))
        msgs.append(over("textDocument/inlayHint", URIS[0], (0, 0, 999, 0)))
        S.append(Session(msgs, "every word"))
    # every field by name and by number, in some instruction that takes it
    fl = []
    for k in gens.FIELDS:
        for n, f in enumerate(gens.FIELDS[k]):
            us = [(o, i) for o in ops for i, im in enumerate(gens.OPS[o]["imm"]) if im["k"] == k or (k == "txn" and im["k"] in ("txna", "itxn"))]
            for w in (f["name"], str(n)):
                o, i = rng.choice(us)
                x = [gens.good(im["k"], rng) for im in gens.OPS[o]["imm"]]
                x[i] = w
                fl.append((" ".join([o] + x[:i + 1]), len(" ".join([o] + x[:i])) + 1))
    # and other words there
    for o in ops:
        for i, im in enumerate(gens.OPS[o]["imm"]):
            if im["k"] in gens.FIELDS or im["k"] in ("txna", "itxn"):
                for w in rng.sample(["foo", "256", "255", "-1", "0x", "300", "+", "1e0", '"Sender"', "sender", "2.", "99999999999999999999"], 2 if ctx.quick else 6):
                    x = [gens.good(q["k"], rng) for q in gens.OPS[o]["imm"]]
                    x[i] = w
                    fl.append((" ".join([o] + x[:i + 1]), len(" ".join([o] + x[:i])) + 1))
    rng.shuffle(fl)
    for j in range(0, len(fl), 20):
        t = "\n".join(["#pragma version 10"] + [a for a, _ in fl[j:j + 20]])
        S.append(Session([opened(URIS[0], t), over("textDocument/inlayHint", URIS[0], (0, 0, 99, 0))] +
                         [at("textDocument/hover", URIS[0], (n + 1, c)) for n, (_, c) in enumerate(fl[j:j + 20])], "every field"))
    for _ in range(150 if ctx.quick else 1500):
        t = doc(rng)
        msgs = [opened(URIS[0], t)]
        if rng.random() < 0.4:
            msgs.insert(0, msg("initialize", set="".join(rng.choice("tf-") for _ in range(4))))
        for p in positions(t, rng, 14):
            msgs.append(at(rng.choice(M), URIS[0], p))
        for g in ranges(t, rng, 3):
            msgs.append(over("textDocument/inlayHint", URIS[0], g))
        S.append(Session(msgs, "positions"))
    # each setting of the hints, where there are hints of both kinds
    for a in "tf-":
        for b in "tf-":
            t = "\n".join(["#pragma version 10", "txn 1", "byte 0x6162"] + [hinted(rng) for _ in range(6)] + ["global 0", "pushbytes 0x41"])
            S.append(Session([msg("initialize", set="-" + a + b + "-"), opened(URIS[0], t)] + [over("textDocument/inlayHint", URIS[0], g) for g in [(0, 0, 99, 0), (2, 0, 99, 0)]], "hint settings"))
    # labels, with what documents them and the prototypes of their routines
    takers = [(o, i) for o in ops for i, im in enumerate(gens.OPS[o]["imm"]) if im["k"] == "label"]
    for _ in range(25 if ctx.quick else 200):
        ls = ["#pragma version 10"]
        for n in rng.sample(["a", "b", "main", "x1", "a"], rng.randrange(1, 5)):
            ls += [rng.choice(["// %s" % n, "", "//two words", "int 1 // not this", "pop"]) for _ in range(rng.randrange(4))]
            ls.append(n + ":")
            ls += rng.choice([[], ["proto %d %d" % (rng.randrange(4), rng.randrange(256))], ["", "proto 0 1"], ["// c", "proto 2 3"], ["int 1", "proto 1 1"], ["proto 1"],
                              ["proto 1 2", "proto 3 4"]])
            ls += rng.choice([["retsub"], [], ["int 1"]])
        at_ = []
        for _ in range(3):
            o, i = rng.choice(takers)
            at_.append((len(ls), len(o) + 1 + rng.randrange(3)))
            ls.append(o + " " + rng.choice(["", "a", "zz", "a b"]))
        S.append(Session([opened(URIS[0], gens.join(ls, rng))] + [at("textDocument/completion", URIS[0], p) for p in at_], "labels"))
    # prefixes, by version and mode
    for _ in range(30 if ctx.quick else 200):
        lines = ["#pragma version %d" % rng.randrange(1, 12)] if rng.random() < 0.85 else ["#pragma version 300000000"]
        if rng.random() < 0.4:
            lines.insert(0, "// #pragma mode logicsig")
        for _ in range(4):
            o = rng.choice(ops)
            o = o[:rng.randrange(1, len(o) + 1)]
            c = rng.random()
            lines.append(o.upper() if c < 0.15 else o.capitalize() if c < 0.2 else o + "_" if c < 0.25 else "\t" + o if c < 0.35 else o)
        lines.append("")
        msgs = [opened(URIS[0], "\n".join(lines) + "\n")]
        for l in range(1, len(lines)):
            msgs.append(at("textDocument/completion", URIS[0], (l, rng.randrange(len(lines[l]) + 1))))
        S.append(Session(msgs, "prefixes"))
    big = []
    for t in big_docs(ctx):
        big.append(Session([opened(URIS[0], t)] + [at(m, URIS[0], p) for m in M for p in ends(t, rng, 6)] +
                           [over("textDocument/inlayHint", URIS[0], g) for g in ((0, 0, 9999, 0), (len(line_table(t)) - 40, 0, 9999, 0))], "long document"))
    run_docs(ctx, S, set(M) | {"textDocument/inlayHint"}, per_shard=10, big=big)
    snippets(ctx, S)


def c21(ctx):
    rng = ctx.rng
    S = []
    for _ in range(500 if ctx.quick else 5000):
        t = doc(rng) if rng.random() < 0.7 else gens.join(gens.any_program(rng), rng)
        if any(ord(x) >= 128 or ord(x) < 9 for x in t):
            t = doc(rng)
        msgs = [msg("initialize"), opened(URIS[0], t), msg("textDocument/semanticTokens/full", uri=URIS[0])]
        if rng.random() < 0.2:
            msgs += [changed(URIS[0], doc(rng)), msg("textDocument/semanticTokens/full", uri=URIS[0])]
        S.append(Session(msgs, "tokens"))
    for t in class_docs(rng) + corpus(ctx, 3 if ctx.quick else 0) + [far_doc(rng) for _ in range(60 if ctx.quick else 800)]:
        S.append(Session([msg("initialize"), opened(URIS[0], t), msg("textDocument/semanticTokens/full", uri=URIS[0])], "every instruction"))
    big = [Session([msg("initialize"), opened(URIS[0], t), msg("textDocument/semanticTokens/full", uri=URIS[0])], "long document") for t in big_docs(ctx)]
    run_docs(ctx, S, {"textDocument/semanticTokens/full"}, per_shard=40, big=big)


# what a capability lets a client ask for
PROVIDERS = {"definitionProvider": "textDocument/definition", "documentHighlightProvider": "textDocument/documentHighlight",
             "documentSymbolProvider": "textDocument/documentSymbol", "codeActionProvider": "textDocument/codeAction",
             "hoverProvider": "textDocument/hover", "documentFormattingProvider": "textDocument/formatting",
             "completionProvider": "textDocument/completion", "signatureHelpProvider": "textDocument/signatureHelp",
             "renameProvider": "textDocument/rename", "executeCommandProvider": "workspace/executeCommand",
             "diagnosticProvider": "textDocument/diagnostic", "codeLensProvider": "textDocument/codeLens",
             "inlayHintProvider": "textDocument/inlayHint", "inlineValueProvider": "textDocument/inlineValue",
             "semanticTokensProvider": None, "referencesProvider": "textDocument/references",
             "declarationProvider": "textDocument/declaration", "typeDefinitionProvider": "textDocument/typeDefinition",
             "implementationProvider": "textDocument/implementation", "foldingRangeProvider": "textDocument/foldingRange",
             "documentLinkProvider": "textDocument/documentLink", "colorProvider": "textDocument/documentColor",
             "documentRangeFormattingProvider": "textDocument/rangeFormatting",
             "documentOnTypeFormattingProvider": "textDocument/onTypeFormatting",
             "selectionRangeProvider": "textDocument/selectionRange", "linkedEditingRangeProvider": "textDocument/linkedEditingRange",
             "callHierarchyProvider": "textDocument/prepareCallHierarchy", "monikerProvider": "textDocument/moniker",
             "typeHierarchyProvider": "textDocument/prepareTypeHierarchy", "workspaceSymbolProvider": "workspace/symbol"}
RESOLVES = {"completionProvider": "completionItem/resolve", "codeLensProvider": "codeLens/resolve", "codeActionProvider": "codeAction/resolve",
            "inlayHintProvider": "inlayHint/resolve", "workspaceSymbolProvider": "workspaceSymbol/resolve"}


def announced(c):
    """the methods a client may use, given the capabilities c"""
    out = set()
    for k, v in c.items():
        if k not in PROVIDERS or v is None or v is False:
            continue
        if PROVIDERS[k]:
            out.add(PROVIDERS[k])
        o = v if isinstance(v, dict) else {}
        if o.get("resolveProvider") and k in RESOLVES:
            out.add(RESOLVES[k])
        if k == "renameProvider" and o.get("prepareProvider"):
            out.add("textDocument/prepareRename")
        if k == "diagnosticProvider" and o.get("workspaceDiagnostics"):
            out.add("workspace/diagnostic")
        if k == "semanticTokensProvider":
            if o.get("full") or o.get("full") == {}:
                out.add("textDocument/semanticTokens/full")
            if isinstance(o.get("full"), dict) and o["full"].get("delta"):
                out.add("textDocument/semanticTokens/full/delta")
            if o.get("range"):
                out.add("textDocument/semanticTokens/range")
    return out


def compare_capabilities(r, v):
    c = (r or {}).get("capabilities")
    if not isinstance(c, dict):
        return "no capabilities"
    got = announced(c)
    if got != set(v[0]):
        return "announced besides: %s, lacking: %s" % (sorted(got - set(v[0])), sorted(set(v[0]) - got))
    sync = c.get("textDocumentSync")
    if sync != 1 and not (isinstance(sync, dict) and sync.get("change") == 1 and sync.get("openClose")):
        return "documents are synchronised as %s, not by their full text" % json.dumps(sync)
    cmds = (c.get("executeCommandProvider") or {}).get("commands")
    if sorted(cmds or []) != sorted(v[1]):
        return "commands %s, expected %s" % (cmds, sorted(v[1]))
    if "textDocument/semanticTokens/full" in got:
        types = c["semanticTokensProvider"].get("legend", {}).get("tokenTypes") or []
        if not isinstance(c["semanticTokensProvider"].get("legend", {}).get("tokenModifiers"), list):
            return "the legend lists no modifiers, not even none"
        if len(set(types)) != len(types) or not set(v[2]) <= set(types):
            return "the legend %s lacks a class of %s or repeats one" % (types, v[2])
    return None


def c28(ctx):
    import adapter
    rng = ctx.rng
    u = URIS[0]
    S = []
    for o in itertools.product("tf-", repeat=4):
        o = "".join(o)
        t = small_doc(rng) + ("\nint 7 // seven\nbyte \"a\"\nb zz\nzz:\ntxn Fee" if rng.random() < 0.7 else "")
        n = t.count("\n")
        ask = [at(m, u, (0, 0), name="zz") if m in POS or m == "textDocument/rename" else over(m, u, (0, 0, n, 0)) if m in RANGE else msg(m, uri=u)
               for m in sorted(set(REQS) - {"textDocument/foo"})]
        ask += [msg("workspace/executeCommand", uri=u, cmd=c) for c in COMMANDS]
        rng.shuffle(ask)
        msgs = [msg("initialize", set=o)] + [opened(u, t)] + ask
        if rng.random() < 0.3:
            msgs += [msg("initialize", set="".join(rng.choice("tf-") for _ in range(4)))]
        S.append(Session(msgs, "capabilities"))
    for k in ("missing", "empty", "ok"):
        S.append(Session([msg("initialize", k=k)], "capabilities"))
    run_spec(ctx, S)
    run_real(ctx, S)
    for s in S:
        if s.skipped:
            continue
        if s.fail or s.out is None:
            ctx.violation("the server died or hung: %s" % str(s.fail)[:200], describe(s))
            continue
        got, wrong = pair(s)
        if wrong:
            ctx.violation(wrong, describe(s))
            continue
        legend = None
        for i, o in sorted(got.items()):
            m = s.msgs[i]
            w = None
            if outcome(o) != s.exp[i]["o"]:
                w = "%s, expected %s" % (outcome(o), s.exp[i]["o"])
            elif m["m"] == "textDocument/semanticTokens/full" and legend is not None and outcome(o) == "result":
                w = compare(s, i, m, s.exp[i], o["result"], None, legend)     # the classes as the legend names them
            elif m["m"] == "initialize":
                try:
                    w = compare_capabilities(o["result"], s.exp[i]["v"])
                    p = o["result"]["capabilities"].get("semanticTokensProvider")
                    legend = p["legend"]["tokenTypes"] if p else None
                except (KeyError, TypeError, AttributeError) as ex:
                    w = "malformed: %s (%s)" % (json.dumps(o)[:300], ex)
            if w:
                ctx.violation("message %d (%s, options %s): %s" % (i, m["m"], s.msgs[0]["set"], w), dict(describe(s, i), response=o))
                break
    # the debug adapter
    D = []
    for z in (False, True):
        for cz in (False, True):
            D.append(adapter.Session(["int 1"], [adapter.req("initialize", z=z, cz=cz), adapter.req("configurationDone")], "capabilities"))
    D.append(adapter.Session(["int 1"], [adapter.req("initialize", k="missing"), adapter.req("configurationDone")], "capabilities"))
    adapter.run_spec(ctx, D)
    adapter.run_real(ctx, D)
    for s in D:
        w = adapter.compare(ctx, s, "C22")
        if w:
            ctx.violation("adapter, message %d: %s" % w, dict(messages=[adapter.short(m) for m in s.msgs]))
            continue
        for o in s.out:
            if o.get("type") == "response" and o.get("command") == "initialize":
                got = {k for k, v in (o.get("body") or {}).items() if k.startswith("supports") and v}
                if got != {"supportsConfigurationDoneRequest"}:
                    ctx.violation("the adapter announces %s" % sorted(got), dict(response=o))
    ctx.notes.update(option_sets=len(S), adapter_sessions=len(D))


def check(ctx):
    {"C28": c28, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}[ctx.prop](ctx)
