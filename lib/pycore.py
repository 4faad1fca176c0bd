"""Run programs of pyprogs.py under noWorkflow and put what was recorded in the form that
spec/PyCoreTrace.tla compares (evaluations named by activation, node and occurrence)."""
import json, os, shutil, sqlite3, subprocess, sys, tempfile
import nowdrv, pyfront, pyprogs

PLAIN = "/opt/venv/bin/python"


def rows(d, sql, *a):
    c = sqlite3.connect(os.path.join(d, ".noworkflow", "db.sqlite"))
    try:
        return c.execute(sql, a).fetchall()
    finally:
        c.close()


def recorded(d, rd, tid):
    """[{key, deps, rep, call, nm, up}], problems"""
    comps = {r[0]: r[1:] for r in rows(
        d, "select id, name, type, mode, first_char_line, first_char_column, last_char_line,"
           " last_char_column from code_component where trial_id=?", tid)}
    acts = {r[0]: r[1:] for r in rows(d, "select id, name, start_checkpoint from activation where trial_id=?", tid)}
    evs = rows(d, "select id, code_component_id, activation_id, repr, checkpoint from evaluation"
                  " where trial_id=? order by id", tid)
    times = sorted(set([a[1] for a in acts.values()] + [e[4] for e in evs if e[0] in acts and e[4] is not None]))
    rank = {t: n + 1 for n, t in enumerate(times)}      # times in order
    deps = {}
    for a, b in rows(d, "select dependent_id, dependency_id from dependency where trial_id=?", tid):
        deps.setdefault(a, set()).add(b)
    key, out, occ = {}, [], {}
    for i, cid, act, rep, t1 in evs:
        name, typ, mode, l, c, ll, lc = comps.get(cid, (None,) * 7)
        if typ == "type":
            continue
        if i in acts and act in (0, None) and typ == "script":
            key[i], up = "0", ""
        elif typ == "global":
            key[i], up = "g:%s" % name, ""
        else:
            if typ == "function_def":
                n = rd.pos.get((l, "def"))
            elif typ == "exception":
                n = rd.pos.get((l, "exc"))
            else:
                n = rd.pos.get((l, c, ll, lc, "kv" if typ == "key_value" else mode))
            up = key.get(act, "?%s" % act)
            node = str(n) if n else "?%s:%s:%s" % (typ, l, c)
            k = (up, node)
            occ[k] = occ.get(k, 0) + 1
            key[i] = "%s/%s.%d" % (up, node, occ[k])
        out.append((i, {"key": key[i], "rep": rep or "", "call": i in acts, "nm": acts.get(i, ("",))[0], "up": up,
                        "t0": rank[acts[i][1]] if i in acts else 0, "t1": rank.get(t1, 0) if i in acts else 0}))
    res = []
    for i, e in out:
        e["deps"] = sorted(key.get(x, "?%s" % x) for x in deps.get(i, ()))
        res.append(e)
    return res


def plain(d, script="prog.py"):
    p = subprocess.run([PLAIN, "-W", "ignore", script], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=30, env={"PATH": os.environ["PATH"], "HOME": d})
    out = p.stdout.decode("utf-8", "replace")
    end = ""
    if p.returncode:
        end = p.stderr.decode("utf-8", "replace").strip().splitlines()[-1].split(":")[0]
    return out.splitlines(), end, p.returncode


def save_at(points):
    """Save partial provenance at the given readings of the clock (all if points is 0)"""
    def pre():
        from noworkflow.now.collection.prov_execution.collector import Collector
        real = Collector.time
        n = [0]

        def time(self):
            n[0] += 1
            if points == 0 or n[0] in points:
                self.store(partial=True)
            return real(self)
        Collector.time = time
    return pre


def capture(d, rd, variant, script="prog.py", timeout=60):
    args = ["run"] + variant.get("args", []) + [script]
    pre = save_at(variant["save"]) if "save" in variant else None
    r = nowdrv.now(d, *args, pre=pre, timeout=timeout)
    got = rows(d, "select id, status from trial order by start desc limit 1")
    if not got:
        raise RuntimeError("no trial: %r" % r)
    tid, status = got[0]
    out = [x for x in r.out.splitlines()]
    return tid, status, out, r


def case(job):
    """job: (seed, size, [variants]) -> {"prog", "variants", "text"} or None if it is out of bounds"""
    seed, size, variants = job
    if isinstance(seed, str):
        prog, text, rd = pyfront.program(seed)
    else:
        prog, text, rd = pyprogs.make(seed, size)
    d = tempfile.mkdtemp(prefix="pycore.")
    try:
        with open(os.path.join(d, "prog.py"), "w") as f:
            f.write(text)
        try:
            pout, pend, rc = plain(d)
        except subprocess.TimeoutExpired:
            return None
        if pend == "RecursionError":
            return None
        vs = [{"plain": True, "out": pout, "end": pend, "depth": 1000, "evals": [], "what": "plain"}]
        for v in variants:
            tid, status, out, r = capture(d, rd, v)
            ev = recorded(d, rd, tid)
            if any(len(e["rep"]) > 7 and e["rep"].lstrip("-").isdigit() for e in ev) or len(ev) > 900:
                return None
            if pend:
                # the traceback of an uncaught exception is reported on the output
                k = [i for i, x in enumerate(out) if x.startswith("[now] " + pend)]
                out = out[:k[-1]] if k else out
            end = pend if (status == "unfinished") == bool(pend) else "status:" + status
            vs.append({"plain": False, "out": out, "end": end, "depth": v.get("depth", 1000),
                       "evals": ev, "what": v["what"]})
            shutil.rmtree(os.path.join(d, ".noworkflow"))
        return {"seed": seed, "size": size, "text": text, "prog": prog, "variants": vs}
    finally:
        shutil.rmtree(d, ignore_errors=True)
