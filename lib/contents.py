"""The palette of contents and names used for the content store."""
import hashlib, random

SEEDED = random.Random(7)
DATA = {
    "empty": b"",
    "one": b"x",
    "nl": b"\n",
    "text": b"hello\nworld\n",
    "crlf": b"hello\r\nworld\r\n",
    "lf": b"hello\nworld",
    "nul": b"\x00",
    "nuls": b"a\x00b\x00\x00c\x00",
    "utf8": "caf\u00e9 \u2603 \U0001f600\n".encode("utf-8"),
    "bad": b"\xff\xfe\x80abc\xc3",
    "all": bytes(range(256)),
    "trail": b"  spaces and tabs \t\n\n\n",
    "hdr": b"blob 5\x00hello",
    "tree": b"100644 a.txt\x00" + bytes(range(20)),
    "pick": b"\x80\x04\x95\x0c\x00\x00\x00\x00\x00\x00\x00\x8c\x08answer42\x94.",
    "zlib": b"x\x9c+I-.\x01\x00\x04]\x01\xc1",
    "idx": b"ref: refs/heads/master\n",
    "big": bytes(SEEDED.getrandbits(8) for _ in range(70000)),
    "flat": b"0123456789abcdef" * 20000,
    "flat2": b"0123456789abcdef" * 19999 + b"0123456789abcdeF",
    "py": b"# -*- coding: utf-8 -*-\nprint('x')\n",
    "dot": b"\n.\n",
    "nohash": b"da39a3ee5e6b4b0d3255bfef95601890afd80709",
}
# contents whose hashes share their first characters, for both ways of hashing
def _prefixed(fn, want=3):
    seen = {}
    i = 0
    while True:
        b = b"p%d" % i
        h = fn(b)[:want]
        if h in seen:
            return seen[h], b
        seen[h] = b
        i += 1

def sha(b):
    return hashlib.sha1(b).hexdigest()

def git(b):
    return hashlib.sha1(b"blob %d\x00" % len(b) + b).hexdigest()

DATA["ps1"], DATA["ps2"] = _prefixed(sha)
DATA["pg1"], DATA["pg2"] = _prefixed(git)
DATA["ps3"], DATA["ps4"] = _prefixed(sha, 5)
DATA["pg3"], DATA["pg4"] = _prefixed(git, 5)
DATA["ps5"], DATA["ps6"] = b"q1418", b"q47729"      # eight characters of sha(b)
DATA["pg5"], DATA["pg6"] = b"q15923", b"q63709"     # eight characters of git(b)
PAIRS = {sha: [("ps1", "ps2"), ("ps3", "ps4"), ("ps5", "ps6")],
         git: [("pg1", "pg2"), ("pg3", "pg4"), ("pg5", "pg6")]}
assert sha(b"q1418")[:8] == sha(b"q47729")[:8] and git(b"q15923")[:8] == git(b"q63709")[:8]
WHICH = {v: k for k, v in DATA.items()}

NAMES = {
    "plain": "data.txt",
    "same": "data.txt",
    "script": "script.py",
    "deep": "a/b/c/d.txt",
    "deep2": "a/b/c/e.txt",
    "dirname": "a/b",
    "up": "../outside/x.txt",
    "abs": "/tmp/elsewhere/file.txt",
    "home": "~/x.txt",
    "uni": "d\u00e9j\u00e0 \u2603.txt",
    "space": " lead and trail .txt ",
    "ver": "data.txt - v2",
    "dash": "-rf.txt",
    "quote": "it's \"q\".txt",
    "newline": "a\nb.txt",
    "long": "n" * 200 + ".txt",
    "longdir": "/".join(["d" * 100] * 20) + "/f.txt",
    "verylong": "/".join(["e" * 200] * 25) + "/f.txt",
    "generic": "generic",
    "dot": ".hidden",
    "gitdir": ".git/config",
    "trailslash": "dir/",
    "dots": "a/./b/../c.txt",
    "surr": "caf\udce9.txt",
    "dotdot": "..data.txt",
    "gitup": ".GIT/hooks/x",
    "root": "/x",
    "conflict": "data.txt/inside",
    "index": "index.lock",
    "colon": "C:\\dir\\f.txt",
}
