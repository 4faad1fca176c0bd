"""Drive the real content engines: sessions in fresh processes under a controller that
schedules every change they make under the store, and can end them at any of them."""
import json, os, select, selectors, shutil, signal, socket, subprocess, sys, tempfile, time
import contents
from nowdrv import CAP

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
GIT = ["pygit", "sequential_pygit", "dulwich", "puregit", "gitdb", "distributed_pygit",
       "pool_pygit", "threading_pygit", "distributed_dulwich", "pool_dulwich", "threading_dulwich"]
PLAINS = ["plain"]
BG = {"pygit", "distributed_pygit", "pool_pygit", "threading_pygit", "distributed_dulwich",
      "pool_dulwich", "threading_dulwich"}


def build_shim(d):
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so,
                    os.path.join(HERE, "native", "shim.c"), "-ldl"], check=True)
    return so


class Zygote(object):
    """A preloaded process, under the shim, that forks the sessions"""

    def __init__(self, shim):
        env = dict(os.environ, CONTENT_CAP=CAP, LD_PRELOAD=shim, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "content_child.py")], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.done = True

    def start(self, job):
        self.p.stdin.write((json.dumps(job) + "\n").encode())
        self.p.stdin.flush()
        self.pid = int(self.p.stdout.readline())
        self.done = False
        return self

    def poll(self):
        if not self.done and select.select([self.p.stdout], [], [], 0)[0]:
            self.p.stdout.readline()
            self.done = True
        return 0 if self.done else None

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass
        if not self.done:
            self.p.stdout.readline()
            self.done = True

    def end(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()


POOL = {}


def zygote(shim, n):
    z = POOL.get((os.getpid(), n))
    if z is None or z.p.poll() is not None:
        z = POOL[(os.getpid(), n)] = Zygote(shim)
    return z


def state(pid):
    """What the threads of a process wait for"""
    out = []
    try:
        for task in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/wchan" % (pid, task)) as f:
                out.append(f.read())
    except OSError:
        pass
    return out


def cpu(pid):
    """Processor time of a process and of its descendants"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        total = int(v[11]) + int(v[12])
        for task in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/children" % (pid, task)) as f:
                total += sum(cpu(int(x)) for x in f.read().split())
        return total
    except (OSError, ValueError, IndexError):
        return 0


class Session(object):
    """One or more processes at work on the store of `base` at the same time"""

    def __init__(self, shim, base, engine, oplists, sched=(), kill_at=0, timeout=30, gate=True, workers=2):
        self.shim, self.base, self.engine, self.oplists = shim, base, engine, oplists
        self.sched, self.kill_at, self.timeout, self.gate = list(sched), kill_at, timeout, gate
        self.workers = workers
        self.effects, self.choices, self.trail = 0, [], []
        self.killed = self.hung = False
        self.state = []

    def run(self):
        tmp = tempfile.mkdtemp(prefix="ctl.")
        procs, files = [], []
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            sp = os.path.join(tmp, "s")
            srv.bind(sp)
            srv.listen(64)
            env = dict(SHIM_ROOT=os.path.join(self.base, ".noworkflow"), HOME=os.path.join(self.base, "home"),
                       GIT_CONFIG_NOSYSTEM="1")
            if self.gate:
                env["SHIM_SOCK"] = sp
            err = os.path.join(tmp, "err")
            for n, ops in enumerate(self.oplists):
                a, b = os.path.join(tmp, "spec%d" % n), os.path.join(tmp, "res%d" % n)
                with open(a, "w") as f:
                    json.dump({"base": self.base, "engine": self.engine, "ops": ops,
                               "workers": self.workers}, f)
                open(b, "w").close()
                files.append(b)
                procs.append(zygote(self.shim, n).start({"spec": a, "res": b, "env": env, "err": err}))
            self.loop(srv, procs)
            for p in procs:
                p.kill()
            self.err = open(err, errors="replace").read()[-1500:] if os.path.exists(err) else ""
            out = []
            for b in files:
                out.append([json.loads(line) for line in open(b) if line.endswith("\n")])
            return out
        finally:
            for p in procs:
                p.kill()
            srv.close()
            shutil.rmtree(tmp, ignore_errors=True)

    def loop(self, srv, procs):
        sel = selectors.DefaultSelector()
        sel.register(srv, selectors.EVENT_READ)
        waiting, buf = [], {}
        start = look = time.time()
        end, used = start + self.timeout, -1
        many = self.engine in BG or len(procs) > 1
        quiet = 0.004 if many else 0.0
        last = time.time()
        while True:
            got = sel.select(0.002 if waiting else 0.02)
            for key, _ in got:
                if key.fileobj is srv:
                    c, _ = srv.accept()
                    sel.register(c, selectors.EVENT_READ)
                    buf[c] = b""
                else:
                    c = key.fileobj
                    try:
                        data = c.recv(4096)
                    except OSError:
                        data = b""
                    if not data:
                        sel.unregister(c)
                        c.close()
                        waiting = [w for w in waiting if w[0] is not c]
                        continue
                    buf[c] += data
                    while b"\n" in buf[c]:
                        line, buf[c] = buf[c].split(b"\n", 1)
                        waiting.append((c, line.decode("utf-8", "replace")))
                last = time.time()
            if waiting and time.time() - last >= quiet:
                waiting.sort(key=lambda w: [int(x) for x in w[1].split(" ")[:2]])
                n = 0
                if len(waiting) > 1:
                    want = self.sched[len(self.choices)] if len(self.choices) < len(self.sched) else 0
                    n = want % len(waiting)
                    self.choices.append((n, len(waiting)))
                c, line = waiting.pop(n)
                self.effects += 1
                self.trail.append(" ".join(line.split(" ")[2:]))
                if self.kill_at and self.effects == self.kill_at:
                    self.killed = True
                    for p in procs:
                        p.kill()
                    break
                try:
                    c.send(b"g")
                except OSError:
                    pass
                last = time.time()
            if all(p.poll() is not None for p in procs):
                break
            now = time.time()
            if now > look:      # hung: nothing uses the processor, or far too much of it
                look = now + 1
                ticks = sum(cpu(p.pid) for p in procs)
                if ticks != used or now - last < 1:
                    used, end = ticks, now + self.timeout
                if now > end or now > start + 400:
                    self.hung = True
                    self.state = [state(p.pid) for p in procs] + [len(waiting), self.trail[-3:]]
                    break
        for key in list(sel.get_map().values()):
            if key.fileobj is not srv:
                key.fileobj.close()
        sel.close()


class Replay(object):
    """Replay one behaviour of ContentGen with real processes; record the trace"""

    def __init__(self, shim, beh, engines, tmp, sched=(), gate=False, kill=None, par=False):
        self.shim, self.beh, self.engines, self.sched, self.gate = shim, beh, engines, sched, gate
        self.kill, self.par = kill, par
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="con.", dir=tmp))
        self.known = {}
        self.events = []
        self.info = []

    def ops(self, part):
        res = []
        for o in part:
            o = dict(o)
            if o["k"] in ("get", "find"):
                o["hash"] = self.known.get(o["c"], "")
            if o["k"] == "gc":
                o["aggressive"] = o.get("a", False)
            res.append(o)
        return res

    def matches(self, h, n):
        return [c for c, x in self.known.items() if x.startswith(h[:n])]

    def take(self, rows, ops, engine):
        """Turn the results of one process into events; returns True when it got to the end"""
        bg = engine in BG
        for r in rows:
            if r["i"] == 0:
                if r.get("bad"):
                    self.events.append({"k": "open", "bad": r["bad"], "note": r.get("note", "")})
                continue
            o = ops[r["i"] - 1]
            if r.get("skip"):
                continue
            e = {"k": o["k"], "bad": r.get("bad", "")}
            if r.get("note"):
                e["note"] = r["note"]
            if o["k"] == "put":
                e.update(c=o["c"], n=o["n"], hash=r.get("hash", ""), bg=bg)
                if e["hash"]:
                    self.known.setdefault(o["c"], e["hash"])
            elif o["k"] == "get":
                e.update(c=o["c"], res=r.get("res", "?"))
            elif o["k"] == "find":
                e.update(c=o["c"], n=o["n"], res=r.get("res", "?"),
                         matches=self.matches(r["used"], o["n"]) if not e["bad"] else [])
            elif o["k"] == "list":
                e["list"] = r.get("res", ["?"])
            self.events.append(e)

    def session(self, part, engine, kill_at=0, n=0):
        """part: operations; the last one is end or crash"""
        ops = self.ops(part)
        lists = [ops]
        s = Session(self.shim, self.d, engine, lists, sched=self.sched[n:] or [0], kill_at=kill_at,
                    gate=self.gate or kill_at > 0)
        rows = s.run()
        self.events.append({"k": "session", "bad": "", "engine": engine})
        self.take(rows[0], ops, engine)
        done = len(rows[0]) - 1
        if s.hung:
            self.events.append({"k": "hung", "bad": ""})
        if done < len(ops):
            nxt = ops[max(done, 0)]
            if s.killed:
                self.events.append({"k": "crash", "bad": "", "at": kill_at,
                                    "busy": [nxt["c"]] if nxt["k"] == "put" else []})
            elif not s.hung and not (rows[0] and rows[0][0].get("bad")):
                self.events.append({"k": "died", "bad": "died", "note": s.err})
        elif s.killed:
            self.events.append({"k": "crash", "bad": "", "at": kill_at, "busy": []})
        self.info.append({"engine": engine, "effects": s.effects, "choices": s.choices})
        if s.hung:
            self.info[-1]["hung"] = s.state
        return s

    def parallel(self, o, engine):
        """Several processes use the store at the same time"""
        lists = [self.ops(x) for x in o["lists"]]
        s = Session(self.shim, self.d, engine, lists, sched=self.sched, kill_at=o.get("kill", 0), gate=True)
        rows = s.run()
        self.events.append({"k": "session", "bad": "", "engine": engine})
        busy = []
        for ops, rs in zip(lists, rows):
            self.take(rs, ops, engine)
            if len(rs) - 1 < len(ops):
                nxt = ops[max(len(rs) - 1, 0)]
                busy += [nxt["c"]] if nxt["k"] == "put" else []
                if not s.killed and not s.hung and not (rs and rs[0].get("bad")):
                    self.events.append({"k": "died", "bad": "died", "note": s.err})
        if s.hung:
            self.events.append({"k": "hung", "bad": ""})
        if s.killed:
            self.events.append({"k": "crash", "bad": "", "busy": busy})
        self.info.append({"engine": engine, "effects": s.effects, "choices": s.choices})

    def run(self):
        try:
            part, engine, n = [], None, 0
            for o in self.beh:
                if o["k"] == "open":
                    engine, part = self.engines[(o["e"] - 1) % len(self.engines)], []
                elif o["k"] == "end":
                    self.session(part + [{"k": "close"}], engine, n=n)
                    n += 3
                elif o["k"] == "par":
                    self.parallel(o, engine or self.engines[0])
                elif o["k"] == "crash":
                    save = self.d + ".save"
                    shutil.copytree(self.d, save, symlinks=True)
                    before = dict(self.known), list(self.events), list(self.info)
                    s = self.session(part + [{"k": "close"}], engine, kill_at=10 ** 9, n=n)
                    total = s.effects
                    shutil.rmtree(self.d)
                    os.rename(save, self.d)
                    self.known, self.events, self.info = before
                    self.session(part + [{"k": "close"}], engine,
                                 kill_at=max(1, min(total, 1 + total * o["at"] // 100)), n=n)
                    n += 3
                else:
                    part.append(o)
            cs = sorted({o["c"] for x in self.beh for o in [x] + sum(x.get("lists", []), []) if "c" in o})
            for e in self.events:
                e.setdefault("bad", "")
            return {"contents": cs, "events": self.events, "info": self.info}
        finally:
            shutil.rmtree(self.d, ignore_errors=True)
