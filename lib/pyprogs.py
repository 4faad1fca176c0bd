"""Random programs for spec/PyCore.tla: trees of statements and expressions (JSON) and their text.

Every node that noWorkflow evaluates has a number `n`; render() also returns where in the text
each number is, which is how recorded code components are matched to nodes."""
import random

PREC = {"lit": 9, "name": 9, "sub": 9, "call": 9, "attr": 9, "list": 9, "dict": 9, "tuple": 9}


def IntV(i):
    return {"t": "int", "i": i}


def Str(s):
    return {"t": "str", "s": s}


class Render(object):
    """Text of a program. pos: (line, col, lline, lcol, mode) -> n; fills in the node numbers"""

    def __init__(self):
        self.lines, self.pos, self.n, self.defs = [], {}, 0, []

    def num(self):
        self.n += 1
        return self.n

    def mark(self, start, mode, n=None):
        n = n or self.num()
        key = (self.line, start, self.line, len(self.cur), mode)
        self.pos[key] = n
        return n

    def out(self, s):
        self.cur += s

    @property
    def line(self):
        return len(self.lines) + 1

    def expr(self, e, atom=False):
        k = e["k"]
        start = len(self.cur)
        paren = atom and k in ("bin", "cmp", "bool", "ife", "not", "neg", "tuple")
        if k == "tuple":
            paren = True
        if k == "lit" and atom and e["v"]["t"] == "int" and e["v"]["i"] < 0:
            raise ValueError("negative literal")
        if paren:
            self.out("(")
        if k == "lit":
            v = e["v"]
            self.out({"int": lambda: str(v["i"]), "str": lambda: repr(v["s"]),
                      "bool": lambda: str(v["b"]), "none": lambda: "None"}[v["t"]]())
        elif k == "name":
            self.out(e["x"])
        elif k in ("bin", "cmp"):
            self.expr(e["a"], True)
            self.out(" %s " % e["op"])
            self.expr(e["b"], True)
        elif k == "bool":
            self.expr(e["a"], True)
            self.out(" %s " % e["op"])
            self.expr(e["b"], True)
        elif k == "not":
            self.out("not ")
            self.expr(e["a"], True)
        elif k == "neg":
            self.out("-")
            self.expr(e["a"], True)
        elif k == "ife":
            self.expr(e["a"], True)
            self.out(" if ")
            self.expr(e["c"], True)
            self.out(" else ")
            self.expr(e["b"], True)
        elif k in ("list", "tuple"):
            if k == "list":
                self.out("[")
            for i, x in enumerate(e["es"]):
                if i:
                    self.out(", ")
                self.expr(x)
            if k == "tuple" and len(e["es"]) == 1:
                self.out(",")
            if k == "list":
                self.out("]")
        elif k == "dict":
            self.out("{")
            e["is"] = []
            for i, (a, b) in enumerate(zip(e["ks"], e["es"])):
                if i:
                    self.out(", ")
                s2 = len(self.cur)
                self.expr(a)
                self.out(": ")
                self.expr(b)
                e["is"].append(self.mark(s2, "kv"))
            self.out("}")
        elif k == "sub":
            self.expr(e["a"], True)
            self.out("[")
            self.expr(e["i"])
            self.out("]")
        elif k == "attr":
            self.expr(e["a"], True)
            self.out("." + e["x"])
        elif k == "call":
            self.expr(e["f"], True)
            self.out("(")
            first = True
            for x in e["args"]:
                self.out("" if first else ", ")
                first = False
                if x["k"] == "star":
                    self.out("*")
                self.expr(x["e"] if x["k"] == "star" else x, x["k"] == "star")
            for kw in e["kws"]:
                self.out(("" if first else ", ") + kw["x"] + ("" if kw["x"] == "**" else "="))
                first = False
                self.expr(kw["e"])
            self.out(")")
        else:
            raise ValueError(k)
        if paren:
            self.out(")")
        e["n"] = self.mark(start, "r")

    def target(self, t):
        start = len(self.cur)
        if t["k"] == "tname":
            self.out(t["x"])
        elif t["k"] == "tsub":
            self.expr(t["a"], True)
            self.out("[")
            self.expr(t["i"])
            self.out("]")
        elif t["k"] == "tattr":
            self.expr(t["a"], True)
            self.out("." + t["x"])
        elif t["k"] == "ttuple":
            for i, x in enumerate(t["ts"]):
                if i:
                    self.out(", ")
                self.target(x)
            return
        t["n"] = self.mark(start, "w" if t["k"] == "tname" else "r")

    def nl(self):
        self.lines.append(self.cur)
        self.cur = ""

    def block(self, b, ind):
        for s in b:
            self.stmt(s, ind)

    def head(self, ind, text=""):
        self.cur = "    " * ind + text

    def stmt(self, s, ind):
        k = s["k"]
        self.head(ind)
        if k == "expr":
            self.expr(s["e"])
            self.nl()
        elif k == "assign":
            self.target(s["t"])
            self.out(" = ")
            self.expr(s["e"])
            self.nl()
        elif k == "aug":
            start = len(self.cur)
            self.target(s["t"])
            # the same text is read: another node
            # (a subscript has one component for both)
            s["r"] = {"k": "name", "x": s["t"].get("x", ""), "n": s["t"]["n"]}
            if s["t"]["k"] == "tname":
                s["r"]["n"] = self.mark(start, "r")
            self.out(" %s= " % s["op"])
            self.expr(s["e"])
            self.nl()
        elif k in ("if", "while"):
            self.out(k + " ")
            self.expr(s["c"])
            self.out(":")
            self.nl()
            self.block(s["b"], ind + 1)
            if s.get("o"):
                self.head(ind, "else:")
                self.nl()
                self.block(s["o"], ind + 1)
        elif k == "for":
            self.out("for ")
            self.target(s["t"])
            self.out(" in ")
            self.expr(s["e"])
            self.out(":")
            self.nl()
            self.block(s["b"], ind + 1)
        elif k == "def":
            s["n"] = self.num()
            first = self.line
            self.pos[(self.line, "def")] = s["n"]
            self.out("def " + s["x"] + "(")
            star = False
            for i, p in enumerate(s["ps"]):
                if i:
                    self.out(", ")
                if p["kd"] == "va" or p["kd"] == "ko" and not star:
                    self.out("*" if p["kd"] == "va" else "*, ")
                    star = True
                if p["kd"] == "kw":
                    self.out("**")
                start = len(self.cur)
                self.out(p["x"])
                p["n"] = self.mark(start, "w")
                if p["d"]:
                    self.out("=")
                    self.expr(s["ds"][p["d"] - 1])
            self.out("):")
            self.nl()
            mine = len(self.defs)
            self.defs.append(None)
            self.block(s["b"], ind + 1)
            self.defs[mine] = {"x": s["x"], "first": first, "last": len(self.lines)}
        elif k == "ret":
            self.out("return ")
            self.expr(s["e"])
            self.nl()
        elif k == "ret0":
            self.out("return")
            self.nl()
        elif k in ("pass", "brk", "cnt"):
            start = len(self.cur)
            self.out({"pass": "pass", "brk": "break", "cnt": "continue"}[k])
            s["n"] = self.mark(start, "n")
            self.nl()
        elif k == "raise":
            # the values of a raise statement are not captured
            self.out("raise " + s["x"] + "(" + ", ".join(str(x["v"]["i"]) for x in s["es"]) + ")")
            self.nl()
        elif k == "try":
            self.out("try:")
            self.nl()
            self.block(s["b"], ind + 1)
            if s["h"]:
                self.head(ind, "except" + (" " + s["c"] if s["c"] else "") +
                          (" as " + s["x"] if s["x"] else "") + ":")
                s["n"] = self.num()
                self.pos[(self.line, "exc")] = s["n"]
                self.nl()
                self.block(s["h"], ind + 1)
                if s["o"]:
                    self.head(ind, "else:")
                    self.nl()
                    self.block(s["o"], ind + 1)
            else:
                s["n"] = 0
            if s["f"]:
                self.head(ind, "finally:")
                self.nl()
                self.block(s["f"], ind + 1)
        else:
            raise ValueError(k)

    def program(self, prog):
        self.cur = ""
        self.block(prog, 0)
        return "\n".join(self.lines) + "\n"


class Gen(object):
    """Programs that rarely fail by accident: variables have types int, list, dict, tuple, fun"""

    def __init__(self, seed, size=14, feats=()):
        self.r = random.Random(seed)
        self.size = size
        self.names = 0
        self.budget = 60

    def fresh(self, p):
        self.names += 1
        return "%s%d" % (p, self.names)

    def vars(self, sc, t):
        out, seen = [], set()
        while sc is not None:
            for x, ty in sc["v"].items():
                if x not in seen:
                    seen.add(x)
                    if ty[0] == t and not x.startswith("_"):
                        out.append(x)
            sc = sc["up"]
        return out

    def ty(self, sc, x):
        while sc is not None:
            if x in sc["v"]:
                return sc["v"][x]
            sc = sc["up"]

    # -------------------------------------------------------- expressions
    def lit(self, i=None):
        return {"k": "lit", "v": IntV(self.r.randint(0, 9) if i is None else i)}

    def name(self, x):
        return {"k": "name", "x": x}

    def index(self, sc, n, d):
        r = self.r
        i = r.randrange(n)
        if r.random() < 0.25:
            return {"k": "neg", "a": self.lit(n - i)}
        if d > 0 and r.random() < 0.3:
            return {"k": "bin", "op": "%", "a": self.int(sc, d - 1), "b": self.lit(n)}
        return self.lit(i)

    def int(self, sc, d):
        r = self.r
        c = r.random()
        xs = self.vars(sc, "int")
        if d <= 0 or c < 0.2:
            return self.name(r.choice(xs)) if xs and r.random() < 0.75 else self.lit()
        if c < 0.40:
            op = r.choice(["+", "+", "-", "*", "%", "//"])
            b = self.lit(r.randint(1, 5)) if op in ("%", "//") and r.random() < 0.9 else self.int(sc, d - 1)
            if op == "*":
                b = self.lit(r.randint(0, 3))
            return {"k": "bin", "op": op, "a": self.int(sc, d - 1), "b": b}
        if c < 0.58:
            for t in r.sample(["list", "tuple", "dict"], 3):
                ls = self.vars(sc, t)
                if ls:
                    x = r.choice(ls)
                    ty = self.ty(sc, x)
                    if t == "dict":
                        if not ty[1]:
                            continue
                        return {"k": "sub", "a": self.name(x), "i": {"k": "lit", "v": Str(r.choice(sorted(ty[1])))}}
                    if not ty[1]:
                        continue
                    return {"k": "sub", "a": self.name(x), "i": self.index(sc, ty[1], d - 1)}
        if c < 0.78:
            fs = [f for f in self.vars(sc, "fun")]
            if fs and sc.get("calls", 0) < 3:
                return self.call(sc, r.choice(fs), d)
        if c < 0.84:
            return {"k": "ife", "c": self.cond(sc, d - 1), "a": self.int(sc, d - 1), "b": self.int(sc, d - 1)}
        if c < 0.89:
            ls = self.vars(sc, "list") + 3 * self.vars(sc, "va") + 3 * self.vars(sc, "kwd")
            if ls:
                x = r.choice(ls)
                f = r.choice(["len"] if self.ty(sc, x)[0] == "kwd" else ["len", "sum"])
                return {"k": "call", "f": self.name(f), "args": [self.name(x)], "kws": []}
        if c < 0.92:
            return {"k": "neg", "a": self.int(sc, d - 1)}
        if c < 0.95:
            return {"k": "call", "f": self.name("abs"), "args": [self.int(sc, d - 1)], "kws": []}
        return {"k": "bool", "op": r.choice(["and", "or"]), "a": self.int(sc, d - 1), "b": self.int(sc, d - 1)}

    def cond(self, sc, d):
        r = self.r
        c = r.random()
        if c < 0.65 or d <= 0:
            return {"k": "cmp", "op": r.choice(["<", "<=", ">", ">=", "==", "!="]),
                    "a": self.int(sc, d - 1), "b": self.int(sc, d - 1)}
        if c < 0.75:
            return {"k": "not", "a": self.cond(sc, d - 1)}
        if c < 0.9:
            return {"k": "bool", "op": r.choice(["and", "or"]), "a": self.cond(sc, d - 1), "b": self.cond(sc, d - 1)}
        return self.int(sc, d - 1)

    def call(self, sc, f, d):
        r = self.r
        ty = self.ty(sc, f)
        sc["calls"] = sc.get("calls", 0) + 1
        args, kws = [], []
        ps, nd, va, ko, kw = ty[1:]    # [(name, type)], number of defaults, *, keyword only [(name, default)], **

        def value(t):
            return self.lst(sc, d - 1) if t == "list" else self.int(sc, d - 1)
        n = len(ps) - (r.randint(0, nd) if nd else 0)
        npos = n if r.random() < 0.7 else r.randint(0, n)
        i = 0
        while i < n:
            x, t = ps[i]
            two = [p[1] for p in ps[i:npos][:2]] == ["int", "int"]
            if i < npos and two and r.random() < 0.15:
                args.append({"k": "star", "e": self.exactly(sc, 2, d)})
                i += 1
            elif i < npos:
                args.append(value(t))
            else:
                kws.append({"x": x, "e": value(t)})
            i += 1
        if va and npos == n == len(ps) and r.random() < 0.7:
            for _ in range(r.randint(1, 2)):
                args.append({"k": "star", "e": self.lst(sc, d - 1)} if r.random() < 0.4 else self.int(sc, d - 1))
        for x, default in ko:
            if not default or r.random() < 0.5:
                kws.append({"x": x, "e": self.int(sc, d - 1)})
        if kw:
            for x in r.sample(["u", "w"], r.randint(0, 2)):
                kws.append({"x": x, "e": self.int(sc, d - 1)})
        if len(kws) > 1 and r.random() < 0.5:
            r.shuffle(kws)
        if kws and r.random() < 0.2:       # the last ones in a dictionary
            k = r.randint(1, len(kws))
            some, kws = kws[-k:], kws[:-k]
            kws.append({"x": "**", "e": {"k": "dict", "ks": [{"k": "lit", "v": Str(x["x"])} for x in some],
                                         "es": [x["e"] for x in some]}})
        return {"k": "call", "f": self.name(f), "args": args, "kws": kws}

    def exactly(self, sc, n, d):
        """a sequence of n elements"""
        xs = [x for t in ("list", "tuple") for x in self.vars(sc, t)
              if self.ty(sc, x)[1] == n and t == "tuple"]
        if xs and self.r.random() < 0.7:
            return self.name(self.r.choice(xs))
        return {"k": "list", "es": [self.int(sc, d - 1) for _ in range(n)]}

    def lst(self, sc, d):
        """a list of at least 2 elements"""
        ls = [x for x in self.vars(sc, "list") if self.ty(sc, x)[1] >= 2]
        if ls and self.r.random() < 0.8:
            return self.name(self.r.choice(ls))
        return {"k": "list", "es": [self.int(sc, d - 1), self.int(sc, d - 1)]}

    # -------------------------------------------------------- statements
    def block(self, sc, n, d, loop=False, fun=False):
        b = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            b.append(self.stmt(sc, d, loop, fun))
        return b or [{"k": "pass"}]

    def sub(self, sc):
        """the same variables, with new ones forgotten afterwards (they may be unset)"""
        return {"v": dict(sc["v"]), "up": sc["up"], "calls": sc.get("calls", 0)}

    def stmt(self, sc, d, loop, fun):
        r = self.r
        c = r.random()
        sc["calls"] = 0
        if c < 0.26:
            e = self.int(sc, 3)
            own = [x for x, t in sc["v"].items() if t[0] == "int" and not x.startswith("_") and t != ("int", "param")]
            x = r.choice(own) if own and r.random() < 0.4 else self.fresh("v")
            sc["v"][x] = ("int",)
            return {"k": "assign", "t": {"k": "tname", "x": x}, "e": e}
        if c < 0.34:
            n = r.randint(1, 3)
            e = {"k": r.choice(["list", "list", "tuple"]), "es": [self.int(sc, 2) for _ in range(n)]}
            x = self.fresh("l")
            sc["v"][x] = (e["k"], n)
            return {"k": "assign", "t": {"k": "tname", "x": x}, "e": e}
        if c < 0.38:
            ks = r.sample(["a", "b", "c"], r.randint(1, 3))
            x = self.fresh("d")
            e = {"k": "dict", "ks": [{"k": "lit", "v": Str(k)} for k in ks], "es": [self.int(sc, 2) for _ in ks]}
            sc["v"][x] = ("dict", tuple(ks))
            return {"k": "assign", "t": {"k": "tname", "x": x}, "e": e}
        if c < 0.42:                                   # alias
            ls = self.vars(sc, "list") + self.vars(sc, "dict")
            if ls:
                y = r.choice(ls)
                x = self.fresh("m")
                sc["v"][x] = self.ty(sc, y)
                return {"k": "assign", "t": {"k": "tname", "x": x}, "e": self.name(y)}
        if c < 0.52:                                   # item assignment
            ls = [x for x in self.vars(sc, "list") if self.ty(sc, x)[1]] + self.vars(sc, "dict")
            if ls:
                x = r.choice(ls)
                ty = self.ty(sc, x)
                if ty[0] == "list":
                    i = self.index(sc, ty[1], 1)
                else:
                    i = {"k": "lit", "v": Str(r.choice(sorted(ty[1]) + (["z"] if r.random() < 0.3 else [])))}
                t = {"k": "tsub", "a": self.name(x), "i": i}
                if r.random() < 0.3 and not (ty[0] == "dict" and i["v"]["s"] == "z"):
                    return {"k": "aug", "t": t, "op": r.choice(["+", "-", "*"]), "e": self.int(sc, 1)}
                return {"k": "assign", "t": t, "e": self.int(sc, 2)}
        if c < 0.57:
            own = [x for x, t in sc["v"].items() if t[0] == "int" and not x.startswith("_")]
            if own:
                return {"k": "aug", "t": {"k": "tname", "x": r.choice(own)}, "op": r.choice(["+", "-", "*"]),
                        "e": self.int(sc, 1)}
        if c < 0.62:                                   # several targets
            n = 2
            tt = [x for x in self.vars(sc, "tuple") + self.vars(sc, "list") if self.ty(sc, x)[1] == 2]
            if tt and r.random() < 0.5:
                e = self.name(r.choice(tt))
            else:
                e = {"k": "tuple", "es": [self.int(sc, 2) for _ in range(n)]}
            xs = []
            own = [x for x, t in sc["v"].items() if t[0] == "int" and not x.startswith("_")]
            for _ in range(n):
                x = r.choice(own) if own and r.random() < 0.5 else self.fresh("v")
                while x in xs:
                    x = self.fresh("v")
                xs.append(x)
            for x in xs:
                sc["v"][x] = ("int",)
            return {"k": "assign", "t": {"k": "ttuple", "ts": [{"k": "tname", "x": x} for x in xs]}, "e": e}
        if c < 0.68:
            return {"k": "expr", "e": {"k": "call", "f": self.name("print"),
                                       "args": [self.int(sc, 2) for _ in range(r.randint(1, 2))], "kws": []}}
        if c < 0.76 and d > 0:
            o = self.block(self.sub(sc), r.randint(1, 2), d - 1, loop, fun) if r.random() < 0.5 else []
            return {"k": "if", "c": self.cond(sc, 2), "b": self.block(self.sub(sc), r.randint(1, 3), d - 1, loop, fun), "o": o}
        if c < 0.82 and d > 0:
            s2 = self.sub(sc)
            x = self.fresh("i")
            ls = [y for y in self.vars(sc, "list") + self.vars(sc, "tuple") if self.ty(sc, y)[1]]
            if ls and r.random() < 0.5:
                e = self.name(r.choice(ls))
            elif r.random() < 0.3:
                e = {"k": "list", "es": [self.int(sc, 1) for _ in range(2)]}
            else:
                e = {"k": "call", "f": self.name("range"), "args": [self.lit(r.randint(0, 3))], "kws": []}
            s2["v"][x] = ("int",)
            return {"k": "for", "t": {"k": "tname", "x": x}, "e": e,
                    "b": self.block(s2, r.randint(1, 3), d - 1, True, fun)}
        if c < 0.85 and d > 0:
            x = self.fresh("_w")                       # counter that nothing else assigns
            s2 = self.sub(sc)
            s2["v"][x] = ("int",)
            body = [{"k": "aug", "t": {"k": "tname", "x": x}, "op": "+", "e": self.lit(1)}]
            body += self.block(s2, r.randint(1, 2), d - 1, True, fun)
            return {"k": "if", "c": {"k": "lit", "v": {"t": "bool", "b": True}}, "o": [], "b": [
                {"k": "assign", "t": {"k": "tname", "x": x}, "e": self.lit(0)},
                {"k": "while", "c": {"k": "cmp", "op": "<", "a": self.name(x), "b": self.lit(r.randint(1, 3))}, "b": body}]}
        if c < 0.91 and d > 0:
            return self.define(sc, d)
        if c < 0.94 and d > 0:
            h = r.random() < 0.85
            b = self.block(self.sub(sc), r.randint(1, 3), d - 1, loop, fun)
            if r.random() < 0.6:
                b.insert(r.randint(0, len(b)), self.fail(sc))
            s = {"k": "try", "b": b, "c": r.choice(["ValueError", "Exception", "Exception", "KeyError", ""]) if h else "-",
                 "x": "", "h": [], "o": [], "f": []}
            if h:
                s2 = self.sub(sc)
                if s["c"] and r.random() < 0.4:
                    s["x"] = self.fresh("e")
                s["h"] = self.block(s2, 1, d - 1, loop, fun)
                if r.random() < 0.2:
                    s["o"] = self.block(self.sub(sc), 1, d - 1, loop, fun)
            if not h or r.random() < 0.3:
                s["f"] = self.block(self.sub(sc), 1, d - 1, False, False)
            return s
        if c < 0.965 and loop:
            return {"k": r.choice(["brk", "cnt"])}
        if fun and r.random() < 0.8:
            return {"k": "ret", "e": self.int(sc, 2)}
        if r.random() < 0.05:
            return self.fail(sc)
        return {"k": "expr", "e": self.int(sc, 2)}

    def fail(self, sc):
        r = self.r
        if r.random() < 0.6:
            s = {"k": "raise", "x": r.choice(["ValueError", "KeyError"]), "es": [self.lit()]}
        else:
            s = {"k": "expr", "e": {"k": "bin", "op": "//", "a": self.int(sc, 1), "b": self.lit(0)}}
        return {"k": "if", "c": self.cond(sc, 1), "b": [s], "o": []}

    def define(self, sc, d):
        r = self.r
        f = self.fresh("f")
        ps = [(self.fresh("p"), r.choice(["int", "int", "int", "list"])) for _ in range(r.randint(0, 3))]
        nd = 0
        while nd < len(ps) and ps[len(ps) - 1 - nd][1] == "int" and r.random() < 0.4:
            nd += 1
        s2 = {"v": {}, "up": {"v": {x: t for x, t in sc["v"].items()}, "up": sc["up"]}, "calls": 0}
        for x, t in ps:
            s2["v"][x] = ("list", 2) if t == "list" else ("int",)
        ds = [self.int(sc, 1) for _ in range(nd)]
        params = [{"x": x, "kd": "pos", "d": max(0, i - len(ps) + nd + 1)} for i, (x, _) in enumerate(ps)]
        va = r.random() < 0.2
        ko = [(self.fresh("k"), r.random() < 0.6) for _ in range(r.randint(1, 2))] if r.random() < 0.25 else []
        kw = r.random() < 0.1
        if va:
            params.append({"x": self.fresh("a"), "kd": "va", "d": 0})
            s2["v"][params[-1]["x"]] = ("va",)
        for x, default in ko:
            if default:
                ds.append(self.int(sc, 1))
            params.append({"x": x, "kd": "ko", "d": len(ds) if default else 0})
            s2["v"][x] = ("int",)
        if kw:
            params.append({"x": self.fresh("d"), "kd": "kw", "d": 0})
            s2["v"][params[-1]["x"]] = ("kwd",)
        rec = ps and ps[0][1] == "int" and r.random() < 0.3
        b = []
        if rec:
            g = ps[0][0]
            s2["v"]["_" + g] = ("int",)
            args = [{"k": "bin", "op": "-", "a": self.name(g), "b": self.lit(r.randint(1, 4))}]
            args += [self.lst(s2, 1) if t == "list" else self.int(s2, 1) for _, t in ps[1:]]
            back = {"k": "call", "f": self.name(f), "args": args,
                    "kws": [{"x": x, "e": self.int(s2, 1)} for x, _ in ko]}
            b.append({"k": "if", "c": {"k": "cmp", "op": "<", "a": self.name(g), "b": self.lit(2)},
                      "b": [{"k": "ret", "e": self.int(s2, 1)}], "o": []})
            # the parameter that bounds the recursion is not assigned before the call
            v = self.fresh("v")
            b.append({"k": "assign", "t": {"k": "tname", "x": v}, "e": back})
            s2["v"][v] = ("int",)
        b += self.block(s2, r.randint(1, 4), d - 1, False, True)
        if r.random() < 0.25 and d > 1:
            b.append(self.define(s2, d - 1))
        b.append({"k": "ret", "e": self.int(s2, 2)})
        sc["v"][f] = ("fun", ps, nd, va, ko, kw)
        return {"k": "def", "x": f, "ps": params, "ds": ds, "b": b}

    def program(self):
        sc = {"v": {}, "up": None}
        b = []
        for _ in range(self.size):
            self.budget -= 1
            b.append(self.stmt(sc, 3, False, False))
        return b


def make(seed, size=12):
    g = Gen(seed, size)
    prog = g.program()
    rd = Render()
    text = rd.program(prog)
    return prog, text, rd


if __name__ == "__main__":
    import sys
    print(make(int(sys.argv[1]))[1])
