"""N19 N20 N21 N22 N25: the read-only views of a store are functions of its rows (spec/Views.tla)."""
import json, multiprocessing, os, random, re, shutil, sqlite3, tempfile, traceback
import nowdrv, tlc, viewdrv
from checklib import SEED
from viewdrv import rows

CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
SCRIPTS = {"s1.py": "import json\nx = 1\nopen('o1.txt', 'w').write('a')\n",
           "s2.py": "import s1m\nopen('in.txt').read()\nraise ValueError('x')\n",
           "s3.py": "import sys\ndef f(a):\n    return a + 1\nprint(f(2))\nsys.exit(3)\n"}


def put(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def sql(d, *cmds):
    c = sqlite3.connect(os.path.join(d, ".noworkflow", "db.sqlite"), timeout=20)
    try:
        for x in cmds:
            c.execute(*x) if isinstance(x, tuple) else c.execute(x)
        c.commit()
    finally:
        c.close()


class Scene(object):
    """A store, its viewers and the trace of what they answered"""
    def __init__(self, rnd):
        self.rnd = rnd
        self.d = tempfile.mkdtemp(prefix="view.")
        self.steps, self.log = [], []
        self.viewer = None
        self.clones = 0

    def run(self, script="s1.py", *args, **kw):
        r = nowdrv.now(self.d, "run", *(kw.get("opts", []) + [script] + list(args)), timeout=60)
        self.log.append("now run %s -> %s" % (script, r.rc))
        if not os.path.exists(os.path.join(self.d, ".noworkflow", "db.sqlite")):
            raise RuntimeError("nothing was recorded: %r" % r)

    def db(self, **db):
        self.steps.append({"k": "db", "db": db})

    def ask(self, q, fresh=False):
        if fresh:
            v = viewdrv.Viewer(self.d)
            try:
                a = v.ask(q)
            finally:
                v.close()
        else:
            if self.viewer is None:
                self.viewer = viewdrv.Viewer(self.d)
            a = self.viewer.ask(q)
        self.steps.append(dict(q, a=a))
        self.log.append("%s%s" % ("fresh: " if fresh else "", json.dumps(q)))
        return a

    def close(self):
        if self.viewer:
            self.viewer.close()
        shutil.rmtree(self.d, ignore_errors=True)


def base(sc, names=("s1.py",)):
    for n, t in SCRIPTS.items():
        put(sc.d, n, t)
    put(sc.d, "s1m.py", "y = 2\n")
    put(sc.d, "in.txt", "input")
    for n in names:
        sc.run(n)


# ------------------------------------------------------------------ N20
def clone(sc):
    """A trial that another process records: a script, a status, a parent, a version"""
    rnd = sc.rnd
    old = rows(sc.d, "select * from trial order by start")
    t = dict(old[0])
    sc.clones += 1
    t["id"] = "%08x-clone-%d" % (rnd.randrange(1 << 32), sc.clones)
    t["sequence_key"] = max(o["sequence_key"] for o in old) + 1
    t["script"] = rnd.choice(["s1.py", "s2.py", "s1.py", "dir/s3.py"])
    t["status"] = rnd.choice(["finished", "finished", "unfinished", "backup", "ongoing"])
    t["parent_id"] = rnd.choice([None] + [o["id"] for o in old] + [old[-1]["id"]] * 2)
    t["start"] = "2035-01-01 00:%02d:00.000000" % sc.clones
    t["finish"] = None if t["status"] == "ongoing" else "2035-01-01 00:%02d:30.000000" % sc.clones
    ks = sorted(t)
    cmds = [("insert into trial (%s) values (%s)" % (",".join(ks), ",".join("?" * len(ks))), [t[k] for k in ks])]
    if t["status"] != "ongoing":
        cmds.append(tag(sc, t["id"]))
    sql(sc.d, *cmds)
    sc.log.append("record %s" % {k: t[k] for k in ("id", "script", "status", "parent_id")})


def tag(sc, tid):
    last = rows(sc.d, "select name from tag where type='AUTO'")
    top = max([tuple(map(int, r["name"].split("."))) for r in last] or [(1, 1, 0)])
    v = sc.rnd.choice([(top[0], top[1], top[2] + 1)] * 3 + [(top[0], top[1] + 1, 1), (top[0] + 1, 1, 1)])
    return ("insert into tag (trial_id, type, name, timestamp) values (?, 'AUTO', ?, ?)",
            [tid, "%d.%d.%d" % v, "2035-01-01 00:00:00.000000"])


def finish(sc):
    on = rows(sc.d, "select * from trial where status='ongoing'")
    if on:
        t = sc.rnd.choice(on)
        sql(sc.d, ("update trial set status=?, finish=? where id=?",
                   [sc.rnd.choice(["finished", "unfinished"]), "2036-01-01 00:00:00.000000", t["id"]]), tag(sc, t["id"]))
        sc.log.append("trial %s ends" % t["id"])


def n20(sc, size):
    rnd = sc.rnd
    base(sc, ("s1.py",))
    filters = [("*", "*")] * 2 + [(s, x) for s in ("*", "s1.py", "s2.py", "none.py")
                                  for x in ("*", "finished", "unfinished", "backup")]
    for i in range(size):
        r = rnd.random()
        if r < 0.08:
            sc.run(rnd.choice(sorted(SCRIPTS)))
        elif r < 0.12:
            put(sc.d, "s1.py", "# %d\n%s" % (i, SCRIPTS["s1.py"]))
            sc.run("s1.py")
        elif r < 0.2:
            finish(sc)
        elif r < 0.9:
            clone(sc)
        if rnd.random() < 0.6 or i == size - 1:
            sc.db(trials=viewdrv.trials(sc.d))
            for script, status in [("*", "*")] + rnd.sample(filters, 2):
                for s in (False, True):
                    sc.ask({"k": "history", "script": script, "status": status, "sum": s})
            if i == size - 1 or rnd.random() < 0.2:
                script, status = rnd.choice(filters)
                sc.ask({"k": "history", "script": script, "status": status, "sum": rnd.random() < 0.4}, fresh=True)


# ------------------------------------------------------------------ N19
def alter_items(sc, tid):
    rnd, cmds = sc.rnd, []
    tids = [r["id"] for r in rows(sc.d, "select id from trial")]
    for r in rows(sc.d, "select id, name, value from environment_attr where trial_id=?", tid):
        x = rnd.random()
        if x < 0.15:
            cmds.append(("update environment_attr set value=? where id=? and trial_id=?",
                         [rnd.choice(["", "v", "1.0", "v\n2", (r["value"] or "") + " "]), r["id"], tid]))
        elif x < 0.25:
            cmds.append(("delete from environment_attr where id=? and trial_id=?", [r["id"], tid]))
        elif x < 0.3:
            cmds.append(("update environment_attr set name=? where id=? and trial_id=?",
                         [r["name"] + rnd.choice(["", "x", "y"]), r["id"], tid]))
    for r in rows(sc.d, "select id, name, version from module where trial_id=?", tid):
        x = rnd.random()
        if x < 0.15:
            cmds.append(("update module set version=? where id=? and trial_id=?", [rnd.choice([None, "", "1.0", "2"]), r["id"], tid]))
        elif x < 0.25:
            cmds.append(("delete from module where id=? and trial_id=?", [r["id"], tid]))
        elif x < 0.3:
            cmds.append(("update module set code_block_id=? where id=? and trial_id=?", [None, r["id"], tid]))
    acc = rows(sc.d, "select * from file_access where trial_id=?", tid)
    for r in acc:
        for n in range(rnd.choice([0, 0, 1, 2])):
            t = dict(r, id=1000 + len(cmds) + rnd.randrange(1 << 40) * 1000, mode=rnd.choice(["r", "w", "rb"]), name=rnd.choice([r["name"], "f.txt", "g"]),
                     content_hash_before=rnd.choice([None, "aa", "bb"]), content_hash_after=rnd.choice([None, "aa", "bb"]))
            ks = sorted(t)
            cmds.append(("insert into file_access (%s) values (%s)" % (",".join(ks), ",".join("?" * len(ks))), [t[k] for k in ks]))
        if rnd.random() < 0.3:
            cmds.append(("delete from file_access where id=? and trial_id=?", [r["id"], tid]))
    if rnd.random() < 0.4:
        c = rnd.choice(["script", "command", "status", "path", "arguments", "parent_id"])
        if c in [k for k in rows(sc.d, "select * from trial limit 1")[0]]:
            cmds.append(("update trial set %s=? where id=?" % c, [rnd.choice(["x", "", "s1.py", "finished"]) if c != "parent_id"
                                                               else rnd.choice([None] + [t for t in tids if t != tid]), tid]))
    sql(sc.d, *cmds)


def n19(sc, size):
    rnd = sc.rnd
    base(sc, ("s1.py", "s2.py") if rnd.random() < 0.5 else ("s1.py", "s1.py", "s3.py"))
    if rnd.random() < 0.4:
        sc.run("s1.py", opts=["-b"])
    for i in range(size):
        ts = [r["id"] for r in rows(sc.d, "select id from trial")]
        if i:
            alter_items(sc, rnd.choice(ts))
        tr = viewdrv.trials(sc.d)
        sc.db(trials=tr, items={t["id"]: viewdrv.items(sc.d, t) for t in tr})
        a, b = rnd.choice(ts), rnd.choice(ts)
        fresh = rnd.random() < 0.3
        sc.ask({"k": "diff", "t1": a, "t2": b}, fresh=fresh)
        sc.ask({"k": "diff", "t1": b, "t2": a}, fresh=fresh)
        if i == 0:
            sc.ask({"k": "diff", "t1": a, "t2": a})


# ------------------------------------------------------------------ N21
TREE = '''import sys, json
def a(t):
    for n, k in t:
        if n == "a": a(k)
        elif n == "b": b(k)
        elif n == "x":
            try:
                x(k)
            except ValueError:
                pass
        else: other(n, k)
def b(t):
    for n, k in t:
        if n == "a": a(k)
        elif n == "b": b(k)
        else: other(n, k)
def x(t):
    a(t)
    raise ValueError("x")
def g(t):
    for n, k in t:
        b(k)
        yield n
def other(n, k):
    if n == "g":
        for y in g(k): b([])
    elif n == "s":
        sorted([1, 2], key=lambda v: -v)
        C().m(k)
    elif n == "l":
        [b(i) for i in (k, [])]
    elif n == "h":
        i = g(k)
        b([])
        next(i, 0)
        a([])
        list(i)
    else:
        a(k)
class C(object):
    def m(self, t):
        a(t)
        a(t)
a(json.loads(sys.argv[1]))
'''


def tree(rnd, n, deep):
    out = []
    for i in range(rnd.randrange(1, 4)):
        if n[0] <= 0:
            break
        n[0] -= 1
        out.append([rnd.choice("aaabbbxslo" + ("gh" if rnd.random() < 0.4 else "")), tree(rnd, n, deep - 1) if deep and rnd.random() < 0.7 else []])
    return out


def graphs(sc, tid, fresh=False):
    sc.db(acts=viewdrv.activations(sc.d, tid))
    for m in range(4):
        sc.ask({"k": "graph", "trial": tid, "mode": m, "cache": True}, fresh=fresh)


def n21(sc, size):
    rnd = sc.rnd
    put(sc.d, "t.py", TREE)
    for i in range(size):
        t = tree(rnd, [rnd.randrange(2, 14)], 4)
        if rnd.random() < 0.2:
            t.append(["x", []] if rnd.random() < 0.5 else ["b", None])        # (ends with an exception)
        sc.run("t.py", json.dumps(t))
        tid = rows(sc.d, "select id from trial order by start desc limit 1")[0]["id"]
        if rnd.random() < 0.5:      # it is looked at while it runs: a part of it is stored
            was = rows(sc.d, "select * from trial where id=?", tid)[0]
            acts = rows(sc.d, "select id from activation where trial_id=? order by start_checkpoint", tid)
            late = [r["id"] for r in acts[max(1, len(acts) // 2):]]
            keep = rows(sc.d, "select * from activation where trial_id=? and id in (%s)" % ",".join(map(str, late or [-1])), tid)
            sql(sc.d, ("update trial set status='ongoing', finish=NULL where id=?", [tid]),
                ("delete from activation where trial_id=? and id in (%s)" % ",".join(map(str, late or [-1])), [tid]))
            graphs(sc, tid, fresh=rnd.random() < 0.5)
            cmds = [("update trial set status=?, finish=? where id=?", [was["status"], was["finish"], tid])]
            for r in keep:
                cmds.append(("insert into activation (%s) values (%s)" % (",".join(r), ",".join("?" * len(r))), list(r.values())))
            sql(sc.d, *cmds)
        graphs(sc, tid)
        graphs(sc, tid)
        graphs(sc, tid, fresh=True)
        sc.db(acts=viewdrv.activations(sc.d, tid))
        sc.ask({"k": "graph", "trial": tid, "mode": rnd.randrange(4), "cache": False})


# ------------------------------------------------------------------ N22
NASTY = ["", "'", '"', "a'b", "''", "'x'", "b'x'", 'u"x"', "\\", "a\\", "\\'", "x\\n", "a\nb", "\n", "a\r\nb", "é☃𝒳", "a, b", ")", ").",
         "nil", "None", "% c", "'a", "a'", "x\ty", "f'", "' '", "'\\''", "0", "/* */", "\"'", "r'\\d'", "a.\nb('"]
TEXTS = {"trial": ["script", "command", "status"], "argument": ["name", "value"], "module": ["name", "version", "path", "fullpath"],
         "environment_attr": ["name", "value"], "code_component": ["name"], "code_block": ["docstring"], "activation": ["name"],
         "evaluation": ["repr"], "dependency": ["key"], "file_access": ["name", "mode", "content_hash_before", "content_hash_after"],
         "member": ["key"], "tag": ["name"]}
NULLS = {("module", "version"), ("code_block", "docstring"), ("dependency", "key"), ("file_access", "content_hash_before"),
         ("file_access", "content_hash_after")}


def n22(sc, size):
    rnd = sc.rnd
    put(sc.d, "e.py", SCRIPTS["s1.py"] + 'import s1m\ndef f(q):\n    """doc \'of\' f"""\n    return {"k\'": q, 2: [q, 3]}\n'
        'z = f("it\'s\\n")["k\'"]\nopen("in.txt").read()\nw = z + "\\\\"\nraise ValueError("x")\n' if rnd.random() < 0.5 else
        'def f(q):\n    """two\n    lines"""\n    return [q, "\'" + q]\na = f("x\\ty")[1]\nopen("q\'s.txt", "w").write(a)\n')
    put(sc.d, "s1m.py", "y = 2\n")
    put(sc.d, "in.txt", "input")
    sc.run("e.py", rnd.choice(NASTY) or "a")
    sc.run("e.py", "--opt", "o'", opts=["-b"] if rnd.random() < 0.4 else [])
    for i in range(size):
        if i:
            cmds = []
            for t, cs in TEXTS.items():
                for r in rows(sc.d, "select rowid as rowid_ from %s" % t):
                    for c in cs:
                        if rnd.random() < 0.3:
                            v = rnd.choice(NASTY) + rnd.choice(["", "", rnd.choice(NASTY)])
                            cmds.append(("update or ignore %s set %s=? where rowid=?" % (t, c),
                                         [None if (t, c) in NULLS and rnd.random() < 0.2 else v, r["rowid_"]]))
            for t in ("activation", "evaluation"):
                if rnd.random() < 0.3:
                    cmds.append("update %s set %s=%s where rowid=(select max(rowid) from %s)" % (
                        t, *(("start_checkpoint", "1e-07") if t == "activation" else ("checkpoint", "123456789.123456789")), t))
            if rnd.random() < 0.3:
                cmds.append("update trial set finish=NULL, status='ongoing' where rowid=(select max(rowid) from trial)")
            sql(sc.d, *cmds)
        for t in [r["id"] for r in rows(sc.d, "select id from trial")]:
            sc.db(facts=viewdrv.facts(sc.d, t))
            hide = rnd.random() < 0.4
            if rnd.random() < 0.5:
                sc.ask({"k": "export", "trial": t, "hide": hide})
            else:
                r = nowdrv.now(sc.d, "export", *(["-t"] if hide else []), t, timeout=60)
                a = viewdrv.parse_export(r.out) if r.rc == 0 else {"failed": repr(r)}
                sc.steps.append({"k": "export", "trial": t, "hide": hide, "a": a})


# ------------------------------------------------------------------ N25
def n25(sc, size):
    import pyprogs
    rnd = sc.rnd
    for i in range(size):
        text = pyprogs.make(rnd.randrange(1 << 30), rnd.choice([5, 7, 9]))[1]
        put(sc.d, "p.py", text)
        sc.run("p.py")
        tid = rows(sc.d, "select id from trial order by start desc limit 1")[0]["id"]
        db = viewdrv.dataflow(sc.d, tid)
        if not 5 < len(db["evals"]) < 160:
            continue
        sc.db(**db)
        sc.log.append(text)
        ids = [e["id"] for e in db["evals"]]
        for ev in rnd.sample(ids, min(2, len(ids))) + ids[-2:]:
            sc.ask({"k": "slice", "trial": tid, "ev": ev, "types": rnd.random() < 0.5}, fresh=rnd.random() < 0.2)


DO = {"N25": n25, "N19": n19, "N20": n20, "N21": n21, "N22": n22}


def scene(job):
    prop, seed, size = job
    rnd = random.Random("%s %s" % (prop, seed))
    sc = Scene(rnd)
    try:
        DO[prop](sc, size)
        return {"job": job, "steps": sc.steps, "log": sc.log}
    except Exception:
        return {"job": job, "error": traceback.format_exc(), "log": sc.log}
    finally:
        sc.close()


SHORT = {"N19": "comparing two trials", "N20": "history of the store", "N21": "graph of the calls of a trial",
         "N22": "exported facts", "N25": "slice of the dependencies"}


def brief(x):
    """Sequences of characters as text"""
    if isinstance(x, list):
        if x and all(isinstance(c, str) and len(c) == 1 for c in x):
            return "".join(x)
        return [brief(c) for c in x]
    if isinstance(x, dict):
        return brief(x["v"]) if set(x) == {"q", "v"} else {k: brief(v) for k, v in sorted(x.items())}
    return x


def judge(ck, got):
    for g in got:
        if "error" in g:
            raise RuntimeError("scene %s: %s\n%s" % (g["job"], g["error"], g["log"][-5:]))
    for at in range(0, len(got), 48):
        part = got[at:at + 48]
        bad, r = tlc.validate("Views", CFG, [g["steps"] for g in part], heap="8g", stack="64m")
        ck.states += r.distinct
        ck.transitions += r.generated
        for b in bad:
            g = part[b["tr"] - 1]
            s = g["steps"][b["l"] - 1]
            ck.violate("%s: %s; asked %s; %s" % (SHORT[ck.prop], b["bad"]["at"], json.dumps({k: v for k, v in s.items() if k != "a"}),
                                                json.dumps(brief(b["bad"]))[:600]),
                       {"bad": b["bad"], "log": g["log"]}, list(g["job"]))
    for g in got:
        ck.traces += 1
        for s in g["steps"]:
            ck.count("store states" if s["k"] == "db" else "requests: " + s["k"], 1)
    if got:
        ck.sample({"scene": got[0]["job"], "log": got[0]["log"][:12]})


PLAN = {"N25": (16, 4, 240, 6), "N19": (24, 8, 240, 10), "N20": (32, 9, 320, 14), "N21": (16, 4, 200, 6), "N22": (16, 4, 160, 6)}


def main(ck):
    n, size, tn, tsize = PLAN[ck.prop]
    nowdrv.preload()
    jobs = [(ck.prop, SEED * 1000 + i, ck.pick(size, tsize)) for i in range(ck.pick(n, tn))]
    with multiprocessing.Pool(8, maxtasksperchild=20) as p:
        got = p.map(scene, jobs, 1)
    ck.assume.append("Stores are recorded by real runs and then altered row by row, so that views of stores that other processes "
                     "would need long histories to produce are seen too.")
    judge(ck, got)


def replay(ck, job):
    nowdrv.preload()
    judge(ck, [scene(tuple(job))])
