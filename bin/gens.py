"""Input generators.  They know the vocabulary of the language, not its rules:
what an input means is decided by the specification."""
import base64, hashlib, itertools
from vlib import TABLES

OPS = TABLES["ops"]
FIELDS = TABLES["fields"]
CONSTS = list(TABLES["consts"])


def address(pk):
    try:
        d = hashlib.new("sha512_256", pk).digest()
    except ValueError:
        return None
    return base64.b32encode(pk + d[-4:]).decode().rstrip("=")


ADDRS = [a for a in (address(bytes([i] * 32)) for i in (0, 1, 255)) if a] or \
        ["AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"]

U64 = ["0", "1", "2", "7", "10", "255", "256", "1000", "65536", "18446744073709551615", "18446744073709551616",
       "99999999999999999999999", "9223372036854775808", "0x0", "0x10", "0X1f", "0xfF", "0xffffffffffffffff",
       "0x10000000000000000", "0x", "0xg", "0b101", "0B1", "0b2", "0b", "0o17", "0O7", "0o8", "017", "08", "00", "0",
       "1_000", "_1", "1_", "1__0", "0x_1", "0_7", "0x1_", "-1", "+1", "1.0", "1e3", "a", "0xG_1", "12345678901234567890",
       "0b1_0", "01777777777777777777777", "02000000000000000000000"]
U8 = ["0", "1", "2", "3", "9", "16", "127", "128", "254", "255", "256", "300", "1000", "-1", "+1", "007", "0255", "0x1",
      "1_0", "a", "1a", "18446744073709551616", "-0"]
I8 = ["0", "1", "-1", "+1", "-2", "5", "127", "128", "-128", "-129", "-0", "+0", "--1", "-", "+", "1_0", "0x1", "a", "255",
      "007", "-007", "+127", "99999999999999999999"]
BYTES = ["0x", "0x00", "0x0", "0xff", "0xFF", "0xfF01", "0xZZ", "0x0G", "0XAB", "0x68656c6c6f", "0x22", "0x5c6e",
         '""', '"a"', '"hello world"', '"a\\"b"', '"\\\\"', '"\\n\\r\\t"', '"\\x41"', '"\\x4"', '"\\x4g"', '"\\xFf"',
         '"\\q"', '"//"', '" "', '"a', '"\\"', '"', "'a'", "abc", "12", "base64 AAAA", "b64 AA==", "base64 AAA=",
         "base64 AA=", "base64 A===", "base64 A*==", "base64 ====", "base64", "b64", "base64(AAAA)", "b64(AA==)",
         "b64()", "base64(", "base64(AAAA", "b64(AA==)x", "base64 aGVsbG8=", "base32 AA", "b32 AAAAAAAA", "base32 ME======",
         "b32 MFRA", "base32 MFRGG", "base32 MFRGGZA=", "base32 AA==", "base32 aa", "base32 A1", "base32", "b32", "b32(ME)",
         "base32(MFRA====)", "b32(", "b32()", "b32(AA)BB", "base32 MFRGGZDF", "0x00 0x01", '"a" "b"', "base64 0x01",
         "b64 base64 AAAA", "base64 //8=", "b64(//8=)", "base32 MFRGGZDFMY", '"a;b"', '"\\""', '"\\\\\\""', "b64 /+8=",
         '"\\x00\\x7f\\x80\\xff"', '"~ !"', '"a:"', 'a"b"', '0x"', '""""', "b32(AA)BB)", "b32(AA)(BB)", "base32(ME(A)", "b64(AA==)AA==)", "b64(AA(AA==)", "base64(AAAA)(AAAA)", "0x0x61", "0x0X", "0x 61",
         "base64(0x61)", "b64 (AAAA)"]
LABELS = ["a", "b", "main", "x1", "int", "b64", "0", "a:b", "_", "loop", "#pragma", "a//b", "err"]
SIGS = ['"a()void"', '"add(uint64,uint64)uint64"', "a()void", '""', '"', '"a b"', '"\\"q"', '"x\\n"', "0x00", '"a']
ADDRW = ADDRS + [ADDRS[0][:-1] + "A", ADDRS[0][:-1], ADDRS[0] + "A", ADDRS[0].lower(), "abc", '"' + ADDRS[0] + '"', "0x00"]
JUNK = ["1", "a", '"s"', "0x00", "Sender", "base64", "//x", "-1", "#pragma", "int", "NumAppArgs", "a:", ";", ",", "&&", "\\", "'", "$x", "@", "=", "()", "/", "+"]
BADB32 = ()


def field_words(kind, rng=None):
    k = "txn" if kind in ("txn", "txna", "itxn") else kind
    names = [f["name"] for f in FIELDS[k]]
    n = len(names)
    return names, ["0", "1", str(n - 1), str(n), "200", "255", "256", "-1", "0x1", "01", names[0].lower(), names[-1] + "x",
                   "Foo", '"' + names[0] + '"', "+1"]


def pool(kind):
    if kind == "const":
        return CONSTS_OK + U64
    if kind == "u64":
        return U64 + ["pay", "NoOp"]
    if kind == "u8":
        return U8
    if kind == "i8":
        return I8
    if kind == "bytes":
        return BYTES
    if kind == "label":
        return LABELS
    if kind == "sig":
        return SIGS
    if kind == "addr":
        return ADDRW
    a, b = field_words(kind)
    return a + b


CONSTS_OK = [c for c in CONSTS if " " not in c]
POOL = {}
GOOD = {"const": ["1", "0", "255", "pay", "NoOp", "18446744073709551615", "0x10"], "u64": ["0", "1", "5", "0xff", "1000"],
        "u8": ["0", "1", "2", "3", "255"], "i8": ["0", "-1", "-2", "1", "2"], "bytes": ["0x00ff", '"ab"', "base64 AAAA", "b32(ME)", "0x", '"a\\"\\\\"'],
        "label": ["a", "b", "c"], "sig": ['"a()void"', '"f(uint64)byte[]"'], "addr": ADDRS[:2]}


def words(kind):
    if kind not in POOL:
        POOL[kind] = pool(kind)
    return POOL[kind]


def good(kind, rng):
    g = GOOD.get(kind)
    if g:
        return rng.choice(g)
    k = "txn" if kind in ("txn", "txna", "itxn") else kind
    fs = [f for f in FIELDS[k] if (kind != "txna" or f["arr"]) and (kind != "itxn" or f["itx"])]
    f = rng.choice(fs)
    if rng.random() < 0.25:
        return str([x["name"] for x in FIELDS[k]].index(f["name"]))
    return f["name"]


def good_operands(op, rng, labels=None, reps=None):
    out = []
    dropped = False
    for im in OPS[op]["imm"]:
        if im["opt"] and not im["arr"] and (dropped or rng.random() < 0.5):
            dropped = True
            continue
        if im["arr"]:
            n = rng.choice([0, 1, 2, 3]) if reps is None else reps
        else:
            n = 1
        for _ in range(n):
            if im["k"] == "label" and labels:
                out.append(rng.choice(labels))
            else:
                out.append(good(im["k"], rng))
    if op == "extract" and len(out) == 1:
        out.append("1")
    return out


def good_line(op, rng, labels=None):
    return " ".join([op] + good_operands(op, rng, labels))


def messy_line(op, rng):
    """an instruction with one thing varied"""
    w = good_operands(op, rng)
    kinds = [im["k"] for im in OPS[op]["imm"]]
    c = rng.random()
    if w and c < 0.55:
        i = rng.randrange(len(w))
        k = kinds[min(i, len(kinds) - 1)]
        w[i] = rng.choice(words(k)) if rng.random() < 0.85 else rng.choice(JUNK)
    elif c < 0.7 and w:
        del w[rng.randrange(len(w))]
    elif c < 0.85:
        w.insert(rng.randrange(len(w) + 1), rng.choice(JUNK))
    elif c < 0.93:
        w += [rng.choice(JUNK) for _ in range(2)]
    return " ".join([op] + w)


def spaced(line, rng):
    """the same words with other spacing, maybe a comment"""
    if rng.random() < 0.7:
        return line
    s = rng.choice(["", " ", "\t", "  "]) + line
    if rng.random() < 0.4:
        s = s.replace(" ", rng.choice(["  ", "\t", " \t "]), 1)
    if rng.random() < 0.5:
        s += rng.choice([" ", "\t ", ""]) + rng.choice([" // note", " //", " // a // b", "\t//x", " "])
    return s


EOLS = ["\n", "\n", "\n", "\n", "\r\n", "\r"]


def join(lines, rng, eol=None):
    """lines to a text, with one kind of line end or mixed ones"""
    e = eol or rng.choice(["\n", "\n", "\n", "\r\n", "mix"])
    s = ""
    for i, l in enumerate(lines):
        s += l
        if i < len(lines) - 1 or rng.random() < 0.6:
            s += rng.choice(EOLS) if e == "mix" else e
    return s


# ------------------------------------------------------------------ tokens
LEXBITS = ['"', '"', "\\", "/", "//", " ", "\t", "\n", "\r\n", "\r", "a", "int", "b:", ":", "0x1", "#", "\\\"", "\\\\", "'",
           "é", "日", "\x00", "\x0b", "\x0c", "\x7f", ";", "(", ")"]
RAWBITS = [b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\x80", b"\xc2\x85", b"\xc2\xa0", b"\xe2\x80\xa8"]


def lex_text(rng, n=None):
    n = n or rng.randrange(1, 24)
    out = b""
    for _ in range(n):
        if rng.random() < 0.06:
            out += rng.choice(RAWBITS)
        else:
            out += rng.choice(LEXBITS).encode("utf-8")
    return out


def exhaustive(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield t


# ------------------------------------------------------------------ programs
# comments that look like the one which selects the mode
NEAR_MODE = ["// #pragma mode  logicsig", "//#pragma  mode logicsig", "// #pragma mode logicsig x", "// x #pragma mode logicsig", "// #Pragma mode logicsig",
             "//# pragma mode logicsig", "// #pragma mode logicsigs", "// #pragma mode\tlogicsig", "//\t#pragma mode logicsig\t", "//// #pragma mode logicsig",
             "// #pragma mode LogicSig", "// pragma mode logicsig", "// #pragma mode"]


def comment(rng):
    return rng.choice(["// note", "//", "//a", "  // b c", "// #pragma mode logicsig", "//#pragma mode logicsig ",
                       "// #pragma mode app", "// x // y", "////", NEAR_MODE[rng.randrange(len(NEAR_MODE))]])


def pragma(rng):
    return rng.choice(["#pragma version %d" % rng.randrange(1, 11)] * 6 +
                      ["#pragma version 0", "#pragma version x", "#pragma version", "#pragma", "#pragma mode 1",
                       "#pragma version 2 3", "#pragma version 0x8", "#pragma version 18446744073709551615",
                       "#pragma version 300000000", "#pragma  version\t4", " #pragma version 1_0"])


CTRL = ["b", "bz", "bnz", "callsub", "switch", "match", "retsub", "return", "err", "proto"]
PLAIN = ["int 1", "pop", "dup", "+", "byte 0x00", "txn Sender", "load 0", "store 1", "log", "assert", "itxn_begin"]


def flow_line(rng, labels):
    c = rng.random()
    L = lambda: rng.choice(labels)
    if c < 0.26:
        return L() + ":"
    if c < 0.38:
        return "b " + L()
    if c < 0.46:
        return rng.choice(["bz", "bnz"]) + " " + L()
    if c < 0.53:
        return "callsub " + L()
    if c < 0.60:
        return " ".join([rng.choice(["switch", "match"])] + [L() for _ in range(rng.randrange(0, 4))])
    if c < 0.70:
        return rng.choice(["return", "err", "retsub"])
    if c < 0.74:
        return "proto %d %d" % (rng.randrange(3), rng.randrange(3))
    if c < 0.80:
        return rng.choice(["", "", comment(rng)])
    if c < 0.83:
        return "#pragma version %d" % rng.randrange(1, 10)
    return rng.choice(PLAIN)


def flow_program(rng, n=None, labels=None):
    labels = labels or rng.choice([["a"], ["a", "b"], ["a", "b", "c"], ["a", "b", "c", "d"]])
    n = n or rng.randrange(1, 14)
    return [flow_line(rng, labels) for _ in range(n)]


def any_program(rng, n=None):
    """everything mixed, errors included"""
    n = n or rng.randrange(1, 16)
    labels = rng.choice([["a"], ["a", "b"], ["a", "b", "c"]])
    out = []
    if rng.random() < 0.7:
        out.append(pragma(rng))
    for _ in range(n):
        c = rng.random()
        if c < 0.35:
            l = flow_line(rng, labels)
        elif c < 0.65:
            l = good_line(rng.choice(OPN), rng, labels)
        elif c < 0.8:
            l = messy_line(rng.choice(OPN), rng)
        elif c < 0.86:
            l = comment(rng)
        elif c < 0.9:
            l = pragma(rng)
        elif c < 0.93:
            l = rng.choice(["", " ", "\t", ":", "a::", "foo", "foo bar", "INT 1", "\"a\"", "\"a", "a: b", "a:  // c", ":a", "//"])
        else:
            l = rng.choice(LABELS) + ":"
        out.append(spaced(l, rng))
    return out


OPN = sorted(OPS)


# small alphabets of lines, for exhaustive program scopes
SHAPES = ["a:", "b:", "b a", "b b", "bz a", "callsub b", "int 1", "return", "retsub", "err", "", "#pragma version 2",
          "switch a b", "proto 1 1"]
