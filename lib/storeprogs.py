"""The programs the Store specification runs: abstract operations (read by TLC) and their
rendering as Python source (written to disk by the replay driver)."""

V = {  # data contents; v-tokens concatenate when appended
    "v1": b"one\n", "v2": b"two\r\n", "v3": b"\xff\x00three", "v4": "qu\u00e1tro".encode("utf8"),
    "v5": b"5" * 5000, "v6": b"six",
}


def op(k, **kw):
    d = {"k": k, "f": "", "m": "", "v": "", "lvl": 0, "try": False, "how": "open", "ms": [],
         "body": []}
    d.update(kw)
    return d


def rd(f, **kw): return op("open", f=f, m="rb", **kw)
def wr(f, v, **kw): return op("open", f=f, m="wb", v=v, **kw)
def ap(f, v, **kw): return op("open", f=f, m="ab", v=v, **kw)
def xc(f, v, **kw): return op("open", f=f, m="xb", v=v, **kw)
def up(f, v, **kw): return op("open", f=f, m="r+b", v=v, **kw)  # overwrites the start
def rm(f): return op("rm", f=f)
def imp(*ms, **kw): return op("imp", ms=list(ms), **kw)
def end(how, **kw): return op("end", how=how, **kw)


M1, M2 = ("m1",), ("pk", "pk.m2")
D1, D2, D3 = "d1.txt", "d2.txt", "sub/d3.txt"
T = {"try": True}

PROGS = {
    "e": [],
    "p0": [],
    "p1": [imp(*M1), rd(D1, **T)],
    "p2": [wr(D1, "v1")],
    "p3": [rd(D1)],
    "p4": [ap(D2, "v2", lvl=1), imp(*M2)],
    "p5": [rm(D1), wr(D2, "v3")],
    "p6": [imp(*M1, **T), imp(*M2, **T), rd(D2, **T), wr(D3, "v4", lvl=1)],
    "p7": [wr(D1, "v2", lvl=1), rd(D1), rm(D1)],
    "p8": [rd(D1, **T), wr(D1, "v5"), end("raise")],
    "p9": [rd("s1.py", **T), rd("s2.py", **T), end("exit0")],
    "p10": [imp(*M1, **T), wr("m1.py", "q3")],
    "p11": [wr("m1.py", "q4"), imp(*M1)],
    "p12": [rd(D2, lvl=1, **T), end("raise", lvl=1)],
    "p13": [xc(D1, "v6"), ap(D1, "v1")],
    "p14": [ap(D2, "v6"), ap(D2, "v2"), rd(D2)],
    "p15": [rm(D2), imp(*M1, **T), imp(*M1, **T), ap(D3, "v6", how="io")],
    "p16": [op("open", f=D3, m="w", v="v3", how="os"), rd(D3, how="codecs"), end("exitNone")],
    "p17": [wr("s1.py", "p2"), wr("s2.py", "p3")],
    "p18": [imp(*M2, **T), rd(D1, how="kw", **T), wr(D2, "v4", how="kw")],
    "x0": [end("exit0")], "x1": [end("exit1")], "x2": [end("exit-1")], "x3": [end("exitmsg")],
    "x4": [end("exitTrue")], "x5": [end("exitFalse")], "x6": [end("exitNone", lvl=1)],
    "x7": [end("exit256", lvl=1)], "x8": [end("raise", lvl=1)], "x9": [end("raise")],
    "xa": [end("exitempty")], "xb": [end("exitplain")], "xc": [end("exit0.0")],
    "k0": [wr(D1, "v1", lvl=1), end("kill")], "k1": [end("kbd")],
    "k2": [imp(*M1, **T), rd(D1, **T), end("kill", lvl=1)],
    "q1": [], "q2": [],
    "q3": [rd(D2, lvl=1, **T)],
    "q4": [imp(*M2, **T), ap(D3, "v1")],
    "q5": [end("raise")],
    "q6": [wr(D1, "v3", lvl=1)],
    "q7": [end("exit1")],
}
SCRIPTS = sorted(k for k in PROGS if k[0] in "pxk")
MODS = sorted(k for k in PROGS if k[0] == "q")
EXITS = {"exit0": "0", "exit1": "1", "exit-1": "-1", "exitmsg": "'stop'", "exitTrue": "True",
         "exitFalse": "False", "exitNone": "None", "exit256": "256", "exitempty": "''",
         "exitplain": "", "exit0.0": "0.0"}


TEXT = {"v1": "one\n", "v4": "qu\u00e1tro", "v5": "5" * 5000, "v6": "six"}


def _line(o):
    k = o["k"]
    if k == "imp":
        return ["import " + o["ms"][-1]]
    if k == "rm":
        return ["if os.path.exists(%r): os.remove(%r)" % (o["f"], o["f"])]
    if k == "end":
        h = o["how"]
        if h == "raise":
            return ["raise ValueError('stop')"]
        if h == "kill":
            return ["os.kill(os.getpid(), 9)"]
        if h == "kbd":
            return ["raise KeyboardInterrupt()"]
        return ["sys.exit(%s)" % EXITS[h]]
    f, m = o["f"], o["m"]
    data = content(o["v"]) if o["v"] else None
    how = o["how"]
    if how == "os":
        flags = {"r": "os.O_RDONLY", "w": "os.O_WRONLY | os.O_CREAT | os.O_TRUNC",
                 "a": "os.O_WRONLY | os.O_CREAT | os.O_APPEND"}[m]
        opener = "os.open(%r, %s)" % (f, flags)
        if m == "r":
            return ["fd_ = %s" % opener, "os.read(fd_, 100000)", "os.close(fd_)"]
        return ["fd_ = %s" % opener, "os.write(fd_, %r)" % (data or b""), "os.close(fd_)"]
    enc = ", encoding='utf8', newline=''" if "b" not in m else ""
    if how == "kw":
        opener = "open(mode=%r, file=%r%s)" % (m, f, enc)
    elif how == "dflt":
        opener = "open(%r)" % f
    elif how == "path":
        opener = "pathlib.Path(%r).open(%r%s)" % (f, m, enc)
    elif how == "bytes":
        opener = "open(os.fsencode(%r), %r%s)" % (f, m, enc)
    elif how == "pathobj":
        opener = "open(pathlib.PurePath(%r), %r%s)" % (f, m, enc)
    elif how == "codecs":
        opener = "codecs.open(%r, %r)" % (f, m)
    else:
        opener = "%s(%r, %r%s)" % ({"open": "open", "io": "io.open", "with": "open",
                                    "alias": "opn_"}[how], f, m, enc)
    if data is None:
        body = [] if how == "dflt" or ("b" not in m and m == "r") else (
            ["r_ = h_.read()"] if "r" in m or "+" in m else [])
    else:
        lit = "b'5' * 5000" if o["v"] == "v5" and "b" in m else repr(data) if "b" in m else repr(TEXT[o["v"]])
        body = (["h_.seek(0, 2)"] if m == "r+b" else []) + ["h_.write(%s)" % lit]
    if how == "with":
        return ["with %s as h_:" % opener] + ["    " + x for x in (body or ["pass"])]
    return ["h_ = " + opener] + body + ["h_.close()"]


def _ops(ops, tok, path=""):
    """Lines of a sequence of operations"""
    lines = []
    for n, o in enumerate(ops):
        name = "fn_%s_%s%d" % (tok, path, n)
        if o["k"] == "call":
            body = _ops(o["body"], tok, path + "%d_" % n) or ["pass"]
        else:
            body = _line(o)
        if o["lvl"] or o["k"] == "call":
            lines.append("def %s():" % name)
            lines += ["    " + x for x in body]
            body = [name + "()"]
        if o["try"]:
            lines.append("try:")
            lines += ["    " + x for x in body]
            lines += ["except Exception:", "    pass"]
        else:
            lines += body
    return lines


def source(tok):
    """Program token -> bytes of its source"""
    if tok == "e":
        return b""
    ops = PROGS[tok]
    lines = ["# program " + tok, "import os, io, sys, codecs, pathlib", "opn_ = open"]
    num = int(tok[1:], 16) + 7 * (tok[0] == "q")
    pre, enc, nl, tail = b"", "utf-8", "\n", True
    style = num % 6
    if style == 1:
        nl = "\r\n"
    elif style == 2:
        lines[0] = "# -*- coding: latin-1 -*- " + tok
        lines.append("w_ = '\u00e9\u00df'")
        enc = "latin-1"
    elif style == 3:
        tail = False
        lines.append("# \u00e7\u4e2d")
    elif style == 4:
        pre = b"\xef\xbb\xbf"
        lines.append("w_ = '\u00e9'")
    lines += _ops(ops, tok)
    text = nl.join(lines) + (nl if tail else "")
    return pre + text.encode(enc)


def _random_ops(rng, depth, budget):
    ops = []
    for _ in range(rng.randint(1, budget)):
        x = rng.random()
        t = {"try": rng.random() < 0.7}
        f = rng.choice([D1, D2, D3, D1, D2, "s2.py"])
        if x < 0.22 and depth < 3:
            ops.append(op("call", body=_random_ops(rng, depth + 1, 3), **t))
        elif x < 0.32:
            ops.append(rm(rng.choice([D1, D2, D3])))
        elif x < 0.36:
            ops.append(imp(*rng.choice([M1, M2]), **{"try": True}))
        elif x < 0.39:
            ops.append(end(rng.choice(["raise", "raise", "exit0", "exit1", "exitNone"]), **t))
        else:
            lvl = int(rng.random() < 0.25)
            how = rng.choice(["open", "io", "kw", "path", "bytes", "pathobj", "with", "alias", "os",
                              "codecs", "dflt"])
            if how == "dflt":
                m, v = "r", ""
            elif how == "os":
                m = rng.choice(["r", "w", "a"])
                v = rng.choice(["v1", "v2", "v3", "v4"]) if m != "r" else ""
            elif how == "codecs":
                m = rng.choice(["rb", "wb", "ab"])
                v = rng.choice(["v1", "v3"]) if m != "rb" else ""
            elif rng.random() < 0.3:
                m = rng.choice(["r", "w", "a", "x"])
                v = rng.choice(["v1", "v4", "v6"]) if m != "r" else ""
            else:
                m = rng.choice(["rb", "wb", "ab", "xb", "r+b", "wb+", "a+b"])
                v = "" if m == "rb" else rng.choice(["v1", "v2", "v3", "v4", "v5", "v6", ""])
                if m[0] == "a" and not v:
                    v = "v1"
            if f == "s2.py" and m not in ("rb", "r", ""):
                f = D2
            ops.append(op("open", f=f, m=m, v=v, lvl=lvl, how=how, **t))
    return ops


def add_random(seed, n, prefix="a"):
    """n random file programs named a0, a1, ... ; returns their tokens"""
    import random
    rng = random.Random(seed)
    names = []
    for i in range(n):
        tok = "%s%x" % (prefix, i)
        PROGS[tok] = _random_ops(rng, 0, 6)
        names.append(tok)
    return names


_SRC = {}


def content(tok):
    """token -> bytes; appended contents are joined with '.'"""
    if tok not in _SRC:
        _SRC[tok] = source(tok) if tok in PROGS else b"".join(
            V[x] if x in V else content(x) for x in tok.split("."))
    return _SRC[tok]


def token(data):
    """bytes -> token ("?..." when unknown)"""
    out, rest = [], data
    while rest:
        best = None
        for t in list(V) + list(PROGS):
            b = content(t)
            if b and rest.startswith(b) and (best is None or len(b) > len(content(best))):
                best = t
        if best is None:
            return "?" + repr(data[:60])
        out.append(best)
        rest = rest[len(content(best)):]
    return ".".join(out) if out else "e"
