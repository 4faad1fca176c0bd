"""Python text -> program of spec/PyCore.tla (the constructs that the specification covers)."""
import ast
import pyprogs

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Mod: "%", ast.FloorDiv: "//"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


class Outside(Exception):
    """The specification does not cover a construct"""


def expr(e):
    t = type(e)
    if t is ast.Constant:
        v = e.value
        if v is None:
            return {"k": "lit", "v": {"t": "none"}}
        if isinstance(v, bool):
            return {"k": "lit", "v": {"t": "bool", "b": v}}
        if isinstance(v, int):
            return {"k": "lit", "v": pyprogs.IntV(v)}
        if isinstance(v, str):
            return {"k": "lit", "v": pyprogs.Str(v)}
    if t is ast.Name:
        return {"k": "name", "x": e.id}
    if t is ast.BinOp and type(e.op) in OPS:
        return {"k": "bin", "op": OPS[type(e.op)], "a": expr(e.left), "b": expr(e.right)}
    if t is ast.Compare and len(e.ops) == 1 and type(e.ops[0]) in CMP:
        return {"k": "cmp", "op": CMP[type(e.ops[0])], "a": expr(e.left), "b": expr(e.comparators[0])}
    if t is ast.BoolOp:
        op = "and" if isinstance(e.op, ast.And) else "or"
        out = expr(e.values[-1])
        if len(e.values) != 2:
            raise Outside("chained and/or")
        return {"k": "bool", "op": op, "a": expr(e.values[0]), "b": out}
    if t is ast.UnaryOp and isinstance(e.op, ast.Not):
        return {"k": "not", "a": expr(e.operand)}
    if t is ast.UnaryOp and isinstance(e.op, ast.USub):
        return {"k": "neg", "a": expr(e.operand)}
    if t is ast.IfExp:
        return {"k": "ife", "c": expr(e.test), "a": expr(e.body), "b": expr(e.orelse)}
    if t in (ast.List, ast.Tuple):
        return {"k": "list" if t is ast.List else "tuple", "es": [expr(x) for x in e.elts]}
    if t is ast.Dict and all(e.keys):
        return {"k": "dict", "ks": [expr(x) for x in e.keys], "es": [expr(x) for x in e.values]}
    if t is ast.Subscript and not isinstance(e.slice, ast.Slice):
        return {"k": "sub", "a": expr(e.value), "i": expr(e.slice)}
    if t is ast.Attribute:
        return {"k": "attr", "a": expr(e.value), "x": e.attr}
    if t is ast.Call:
        return {"k": "call", "f": expr(e.func),
                "args": [{"k": "star", "e": expr(x.value)} if isinstance(x, ast.Starred) else expr(x)
                         for x in e.args],
                "kws": [{"x": k.arg or "**", "e": expr(k.value)} for k in e.keywords]}
    raise Outside(ast.dump(e)[:80])


def target(e):
    t = type(e)
    if t is ast.Name:
        return {"k": "tname", "x": e.id}
    if t is ast.Subscript:
        return {"k": "tsub", "a": expr(e.value), "i": expr(e.slice)}
    if t is ast.Attribute:
        return {"k": "tattr", "a": expr(e.value), "x": e.attr}
    if t is ast.Tuple:
        return {"k": "ttuple", "ts": [target(x) for x in e.elts]}
    raise Outside(ast.dump(e)[:80])


def block(b):
    return [stmt(s) for s in b]


def stmt(s):
    t = type(s)
    if t is ast.Expr:
        return {"k": "expr", "e": expr(s.value)}
    if t is ast.Assign and len(s.targets) == 1:
        return {"k": "assign", "t": target(s.targets[0]), "e": expr(s.value)}
    if t is ast.AugAssign and type(s.op) in OPS:
        return {"k": "aug", "op": OPS[type(s.op)], "t": target(s.target), "e": expr(s.value)}
    if t in (ast.If, ast.While):
        if t is ast.While and s.orelse:
            raise Outside("while else")
        return {"k": "if" if t is ast.If else "while", "c": expr(s.test), "b": block(s.body),
                "o": block(s.orelse)}
    if t is ast.For and not s.orelse:
        return {"k": "for", "t": target(s.target), "e": expr(s.iter), "b": block(s.body)}
    if t is ast.FunctionDef:
        a = s.args
        if s.decorator_list or a.posonlyargs:
            raise Outside("def")
        ds = [expr(x) for x in a.defaults]
        ps = [{"x": x.arg, "kd": "pos", "d": max(0, i + 1 - len(a.args) + len(ds))} for i, x in enumerate(a.args)]
        if a.vararg:
            ps.append({"x": a.vararg.arg, "kd": "va", "d": 0})
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                ds.append(expr(v))
            ps.append({"x": x.arg, "kd": "ko", "d": 0 if v is None else len(ds)})
        if a.kwarg:
            ps.append({"x": a.kwarg.arg, "kd": "kw", "d": 0})
        return {"k": "def", "x": s.name, "ps": ps, "ds": ds, "b": block(s.body)}
    if t is ast.Return:
        return {"k": "ret", "e": expr(s.value)} if s.value else {"k": "ret0"}
    if t is ast.Pass:
        return {"k": "pass"}
    if t is ast.Break:
        return {"k": "brk"}
    if t is ast.Continue:
        return {"k": "cnt"}
    if t is ast.Raise and isinstance(s.exc, ast.Call):
        return {"k": "raise", "x": s.exc.func.id, "es": [expr(x) for x in s.exc.args]}
    if t is ast.Try and len(s.handlers) <= 1:
        h = s.handlers[0] if s.handlers else None
        return {"k": "try", "b": block(s.body), "h": block(h.body) if h else [], "o": block(s.orelse),
                "c": (h.type.id if h.type else "") if h else "-", "x": (h.name or "") if h else "",
                "f": block(s.finalbody)}
    raise Outside(ast.dump(s)[:80])


def program(text):
    """(prog, text, render)"""
    prog = block(ast.parse(text).body)
    rd = pyprogs.Render()
    text = rd.program(prog)
    return prog, text, rd
