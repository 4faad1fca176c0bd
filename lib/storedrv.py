"""Replay behaviours of spec/Store.tla into the real commands and observe the real state."""
import json, os, re, shutil, sqlite3, sys, tempfile, datetime, time
import nowdrv, storeprogs as sp

PATHS = ["s1.py", "s2.py", "m1.py", "pk/__init__.py", "pk/m2.py", "d1.txt", "d2.txt", "sub/d3.txt"]
MODNAMES = {"m1", "pk", "pk.m2"}


def q(db, sql, *args):
    c = sqlite3.connect(db, timeout=30)
    try:
        c.row_factory = sqlite3.Row
        return c.execute(sql, args).fetchall()
    except sqlite3.OperationalError as ex:
        if "no such table" in str(ex):   # killed while the store was being created
            return []
        raise
    finally:
        c.close()


def read_contents(d, engine, hashes, timeout=60):
    """hash -> bytes (None when unreadable), by a fresh process through the public store API"""
    hashes = sorted(set(h for h in hashes if h))
    if not hashes:
        return {}
    fd, out = tempfile.mkstemp()
    os.close(fd)

    def fn():
        import base64
        from noworkflow.now.persistence import persistence_config, content
        persistence_config.content_engine = engine
        persistence_config.connect_existing(d)
        res = {}
        for h in hashes:
            try:
                b = content.get(h)
                res[h] = base64.b64encode(b).decode() if b is not None else None
            except Exception:
                res[h] = None
        with open(out, "w") as f:
            json.dump(res, f)
        os._exit(0)
    try:
        nowdrv.forked(fn, d, timeout=timeout)
        import base64
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            res = {}
        return {h: (base64.b64decode(res[h]) if res.get(h) is not None else None) for h in hashes}
    finally:
        os.unlink(out)


def crash_points(limit, report):
    """To be called inside a fresh `now` process: kill it at its limit-th observable effect
    (statement sent to the database, file opened for writing, file moved, removed or created).
    Without limit, the number of effects is written to the file `report` at exit."""
    import signal, atexit
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    seen = [0]
    main = os.getpid()

    def effect(*_, **__):
        if os.getpid() != main:      # a storage worker
            return
        seen[0] += 1
        if limit and seen[0] == limit:
            os.killpg(os.getpgid(0), signal.SIGKILL)
            time.sleep(60)

    event.listen(Engine, "before_cursor_execute", effect)
    event.listen(Engine, "commit", effect)

    def audit(name, args):
        if name == "open":
            m = args[1]
            if (m and any(x in m for x in "wax+")) or (
                    not m and args[2] & (os.O_WRONLY | os.O_RDWR)):
                effect()
        elif name in ("os.rename", "os.remove", "os.mkdir", "os.link", "shutil.move"):
            effect()
    sys.addaudithook(audit)
    if not limit:
        def done():
            with open(report, "w") as f:
                f.write(str(seen[0]))
        atexit.register(done)


def killed(d, percent, *argv):
    """Run the command in directory d, killed at about `percent` of its effects"""
    fd, rep = tempfile.mkstemp()
    os.close(fd)
    copy = tempfile.mkdtemp(prefix="nowk.")
    try:
        shutil.copytree(d, os.path.join(copy, "x"), symlinks=True)
        nowdrv.now(os.path.join(copy, "x"), *argv, timeout=90, pre=lambda: crash_points(0, rep))
        with open(rep) as f:
            total = int(f.read() or 0)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        os.unlink(rep)
    k = max(1, (total * percent + 50) // 100)
    return nowdrv.now(d, *argv, timeout=90, pre=lambda: crash_points(k, None))


class Replay(object):
    def __init__(self, beh, engine="plain", keep=False, tmp=None, observe_calls=True):
        self.beh, self.engine = beh, engine
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="now.", dir=tmp))
        self.cmdtext = {}
        self.hcache = {}
        self.log = []

    # -- actions ------------------------------------------------------------------
    def put(self, path, tok):
        p = os.path.join(self.d, path)
        if tok == "-":
            if os.path.exists(p):
                os.remove(p)
        else:
            with open(p, "wb") as f:
                f.write(sp.content(tok))

    def now(self, *argv, **kw):
        r = nowdrv.now(self.d, *argv, timeout=kw.pop("timeout", 90), **kw)
        return r

    def trial_id(self, i):
        return q(self.db, "select id from trial order by sequence_key")[i - 1]["id"]

    @property
    def db(self):
        return os.path.join(self.d, ".noworkflow", "db.sqlite")

    def do(self, c):
        """Perform the command; returns a crash description or ''"""
        k = c["cmd"]
        eng = ["--content-engine", self.engine]
        if k == "edit":
            self.put(c["path"], c["v"])
            return ""
        if k == "run":
            argv = ["run"] + eng + (["-c", c["ctx"]] if c["ctx"] != "main" else []) + (
                ["-b"] if c["byp"] else []) + [c["script"]] + ([c["args"]] if c["args"] else [])
            self.cmdtext[" ".join(argv)] = "run %s %s %s%s" % (
                c["script"], c["args"], c["ctx"], " b" if c["byp"] else "")
            r = self.now(*argv)
            self.note = (r.err or "")[-1500:]
            return "run hung" if r.hung else ""
        if k in ("runk", "restorek"):
            if k == "runk":
                if not os.path.exists(os.path.join(self.d, c["script"])):
                    return ""
                argv = ["run"] + eng + (["-c", c["ctx"]] if c["ctx"] != "main" else []) + [c["script"]]
                self.cmdtext[" ".join(argv)] = "run %s  %s" % (c["script"], c["ctx"])
            else:
                argv = ["restore"] + eng + [self.trial_id(c["t"])]
            r = killed(self.d, c["at"], *argv)
            return k + " hung" if r.hung else ""
        if k == "restore":
            argv = ["restore"] + eng + [self.trial_id(c["t"])] + (["-s"] if c["ss"] else []) + (
                ["-l"] if c["sl"] else []) + (["-a"] if c["sa"] else [])
            r = self.now(*argv)
        elif k == "rfile":
            argv = ["restore"] + eng
            if c["t"]:
                argv.append(self.trial_id(c["t"]))
            argv += ["-f", c["path"]]
            if c["by"] == "num":
                argv += ["-i", str(c["n"])]
            elif c["by"] == "hash":
                h = [h for h, b in sorted(self.hcache.items()) if b == sp.content(c["v"])]
                h = h[0] if h else "0" * 40
                n = len(h)
                # an unambiguous prefix of at least six characters
                while n > 6 and not [x for x in self.hcache if x != h and x.startswith(h[:n - 1])]:
                    n -= 1
                argv += ["-i", h[:max(n, 10)]]
            else:
                tid = self.trial_id(c["t"])
                tr = q(self.db, "select start from trial where id=?", tid)[0]["start"]
                rows = q(self.db, "select checkpoint from file_access where trial_id=? order by id", tid)
                if c["n"] <= len(rows):
                    start = datetime.datetime.strptime(tr, "%Y-%m-%d %H:%M:%S.%f")
                    t = start + datetime.timedelta(seconds=rows[c["n"] - 1]["checkpoint"])
                    t = str(t)
                else:
                    t = "1999-01-01"
                argv += ["-i", ("B|" if c["by"] == "before" else "A|") + t]
            if c["target"] != c["path"]:
                argv += ["-t", c["target"]]
            r = self.now(*argv)
        elif k == "look":
            argv = {"list": ["list"], "show": ["show", "-a", "-e", "-f"], "history": ["history"],
                    "gc": ["gc"] + eng}[c["what"]]
            r = self.now(*argv)
            if not os.path.exists(self.db):
                return ""
            if c["what"] in ("show",) and not q(self.db, "select 1 from trial"):
                return ""
        else:
            raise ValueError(k)
        self.last = r
        if r.hung:
            return k + " hung"
        if r.rc != 0:
            return "%s failed: %s" % (k, (r.err or r.out).strip().splitlines()[-1:])
        return ""

    # -- observation --------------------------------------------------------------
    def tok(self, h):
        if h is None:
            return "-"
        b = self.hcache.get(h)
        return "?unreadable" if b is None else sp.token(b)

    def observe(self, crash="", final=False):
        o = {"files": {}, "heads": {"s1.py": 0, "s2.py": 0}, "trials": [], "crash": crash,
             "extra": [], "dangling": [], "closure": []}
        for p in PATHS:
            fp = os.path.join(self.d, p)
            if os.path.isfile(fp):
                with open(fp, "rb") as f:
                    o["files"][p] = sp.token(f.read())
            else:
                o["files"][p] = "-"
        for root, dirs, fs in os.walk(self.d):
            dirs[:] = [x for x in dirs if x not in (".noworkflow", "__pycache__")]
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), self.d)
                if rel not in PATHS:
                    o["extra"].append("file " + rel)
        if not os.path.exists(self.db):
            return o
        db = self.db
        ts = q(db, "select * from trial order by sequence_key")
        idx = {t["id"]: n + 1 for n, t in enumerate(ts)}
        blocks = {(r["trial_id"], r["id"]): r for r in q(db, "select trial_id,id,code_hash from code_block")}
        accs = q(db, "select * from file_access order by trial_id,id")
        mods = q(db, "select * from module order by trial_id,id")
        tags = q(db, "select * from tag")
        acts = q(db, "select trial_id,id,name,start_checkpoint from activation order by trial_id,start_checkpoint,id")
        hashes = set()
        for t in ts:
            b = blocks.get((t["id"], t["main_id"]))
            if b:
                hashes.add(b["code_hash"])
        for m in mods:
            if m["name"] in MODNAMES or (m["path"] or "").startswith(self.d + os.sep):
                b = blocks.get((m["trial_id"], int(m["code_block_id"])))
                if b:
                    hashes.add(b["code_hash"])
        for a in accs:
            hashes |= {a["content_hash_before"], a["content_hash_after"]}
        hashes.discard(None)
        need = hashes if final else hashes - set(h for h, b in self.hcache.items() if b is not None)
        self.hcache.update(read_contents(self.d, self.engine, need))
        o["dangling"] = sorted("content " + h for h in hashes if self.hcache.get(h) is None)
        for t in ts:
            tid = t["id"]
            b = blocks.get((tid, t["main_id"]))
            tg = [x["name"] for x in tags if x["trial_id"] == tid and x["type"] == "AUTO"]
            if len(tg) > 1:
                o["extra"].append("tags of trial %d: %s" % (idx[tid], tg))
            cmd = t["command"]
            cmd = self.cmdtext.get(cmd, "restore" if cmd.startswith("restore ") else "?" + cmd)
            inh, par = t["modules_inherited_from_trial_id"], t["parent_id"]
            if t["path"] != self.d:
                o["extra"].append("path of trial %d" % idx[tid])
            if (t["finish"] is None) != (t["status"] == "ongoing"):
                o["extra"].append("finish time of trial %d" % idx[tid])
            if t["finish"] is not None and t["finish"] < t["start"]:
                o["extra"].append("times of trial %d" % idx[tid])
            tm = []
            for m in mods:
                if m["trial_id"] == tid and (m["path"] or "").startswith(self.d + os.sep):
                    blk = blocks.get((tid, int(m["code_block_id"])))
                    rel = os.path.relpath(m["path"], self.d)
                    want = {"m1": "m1.py", "pk": "pk/__init__.py", "pk.m2": "pk/m2.py"}.get(m["name"])
                    if rel != want:
                        o["extra"].append("module %s at %s" % (m["name"], rel))
                    tm.append({"n": m["name"], "c": self.tok(blk["code_hash"]) if blk else "?none",
                               "t": bool(m["transformed"])})
            try:
                tag = [int(x) for x in tg[0].split(".")] if tg else []
            except ValueError:
                tag = [-1]
            o["trials"].append({
                "script": t["script"], "cmd": cmd, "status": t["status"],
                "parent": idx.get(par, -1) if par is not None else 0,
                "inh": idx.get(inh, -1) if inh is not None else 0,
                "code": self.tok(b["code_hash"]) if b else "?",
                "mods": tm,
                "acc": [{"n": a["name"], "m": _mode(a["mode"]), "b": self.tok(a["content_hash_before"]),
                         "a": self.tok(a["content_hash_after"])} for a in accs if a["trial_id"] == tid],
                "calls": [a["name"].split("_")[1] for a in acts if a["trial_id"] == tid
                          and a["name"].startswith("fn_")],
                "tag": tag})
        for h in q(db, "select * from head"):
            s = h["script"]
            if s not in o["heads"] or o["heads"][s]:
                o["extra"].append("head of " + s)
            else:
                o["heads"][s] = idx.get(h["trial_id"], -1)
        return o

    def run(self, rows=False):
        try:
            for p in ("pk", "sub"):
                os.makedirs(os.path.join(self.d, p))
            for p, t in self.beh["init"].items():
                self.put(p, t)
            steps = []
            n = len(self.beh["cmds"])
            for i, c in enumerate(self.beh["cmds"]):
                try:
                    crash = self.do(c)
                    o = self.observe(crash, final=(i == n - 1))
                except IndexError as ex:   # a trial the specification has does not exist
                    o = self.observe("no such trial")
                steps.append({"c": c, "o": o, "note": getattr(self, "note", "")})
            res = {"init": self.beh["init"], "steps": steps, "engine": self.engine}
            if rows:
                import storerows
                res["rows"] = storerows.rows(self.d, self.engine)
            return res
        finally:
            shutil.rmtree(self.d, ignore_errors=True)


def _mode(m):
    """os.open: the flags that only say how the file is created follow the mode letters"""
    m = m or ""
    if "(" in m:
        letters = set(re.sub(r"\([^)]*\)", "", m))
        return "a" if "a" in letters else "".join(sorted(letters))
    return m


def replay(job):
    beh, engine = job
    return Replay(beh, engine).run()
