"""Checks decided by spec/Store.tla: N02 N06 N11 N12 N13 N14 N15 N16 N24."""
import contextlib, json, shutil, multiprocessing as mp, os, tempfile, time, traceback
import tlc, nowdrv, storeprogs as sp, storedrv, storerows

GEN = ("SPECIFICATION GSpec\nCONSTANT Progs <- ProgsFile\nINVARIANT Emit\nINVARIANT Inv\n"
       "CHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n")
TRACE = "SPECIFICATION TSpec\nCONSTANT Progs <- ProgsFile\nCHECK_DEADLOCK FALSE\n"
MC = ("SPECIFICATION MSpec\nCONSTANT Progs <- ProgsFile\nINVARIANT Inv\nINVARIANT RestoreFixed\n"
      "INVARIANT BackupHasWork\nPROPERTY NothingLost\nPROPERTY Consumed\nPROPERTY MAppend\n"
      "PROPERTY OthersUntouched\nCHECK_DEADLOCK FALSE\nCONSTRAINT Short\n")

FAST = ["p0", "p2", "p3", "x0", "x1", "x9"]
LIGHT = ["p0", "p1", "p2", "p3", "p5", "p7", "p9"]
FILEY = ["p%d" % i for i in range(1, 19)]
# property -> generator profiles: (share, kinds, scripts, mods, commands per behaviour)
P = {
    "N02": [
        (5, ["edits", "run", "run", "run", "runx", "runb", "restore", "editm"], sp.SCRIPTS, sp.MODS, 8),
        (4, ["edits", "run", "runk", "runk", "runk", "restore"], sp.SCRIPTS, sp.MODS, 7)],
    "N06": [],
    "N11": [
        (6, ["edits", "run", "run", "run", "restore", "restore", "restores", "del", "runb"], FAST + ["k0", "p17"], ["q1", "q2"], 12),
        (3, ["edits", "editm", "run", "runx", "runb", "restore", "restores"], sp.SCRIPTS, sp.MODS, 10)],
    "N12": [
        (4, ["edits", "run", "run", "restore"], ["p0", "p2", "x1"], ["q1"], 16),
        (1, ["run", "run", "run", "run", "runx"], ["p0", "x1"], ["q1"], 26),
        (1, ["run1", "run1", "run1", "run1", "run1", "run"], ["p0", "x1"], ["q1"], 17),
        (1, ["run1", "edit1"], sp.SCRIPTS, ["q1"], 30),
        (4, ["edits", "edits", "run", "run", "run", "restore", "restores", "editd"], FAST + ["k0"], ["q1"], 12)],
    "N13": [
        (5, ["edits", "editm", "editd", "del", "run", "run", "runx", "restore", "restore", "restores"], FILEY, sp.MODS, 9),
        (4, ["editd", "edits", "run", "run", "restore", "restores", "restores", "del", "runb"], FILEY, sp.MODS, 10)],
    "N14": [
        (5, ["edits", "editm", "editd", "del", "run", "restore", "restore", "restores"], FILEY, sp.MODS, 9),
        (4, ["edits", "editm", "editd", "run", "restore", "restorek", "restorek", "restorek"], FILEY, sp.MODS, 8)],
    "N15": [
        (6, ["edits", "editm", "editd", "run", "run", "rfile", "rfile", "rhash", "rtime", "del"], FILEY, sp.MODS, 10),
        (3, ["edits", "editm", "run", "runx", "runb", "rfile", "rfile", "rtime", "restore"], FILEY, sp.MODS, 10)],
    "N16": [
        (5, ["editm", "edits", "run", "runx", "runb", "runb"], ["p1", "p4", "p6", "p10", "p11", "p15", "p18", "k2"], sp.MODS, 9),
        (4, ["editm", "editm", "run", "runx", "runb", "restore", "restores"], ["p1", "p4", "p6", "p10", "p11", "p15", "p18"], sp.MODS, 9)],
    "N24": [
        (5, ["edits", "editm", "editd", "del", "run", "run", "runx", "runb", "restore", "restores", "runk"], sp.SCRIPTS, sp.MODS, 7)],
}
# property -> (commands at which a clause counts (None: all), clauses)
RUN, REST = {"run", "runk"}, {"restore", "restorek"}
OWN = {
    "N02": (RUN, {"script", "cmd", "status", "code", "count", "crash", "damaged", "args", "finish"}),
    "N06": (RUN, {"acc", "dangling"}),
    "N11": (None, {"parent", "heads"}),
    "N12": (None, {"tag"}),
    "N13": (REST, {"files", "extra", "crash"}),
    "N14": (REST, {"count", "lost", "damaged", "crash"} | {"status", "code", "mods", "acc"}),
    "N15": ({"rfile"}, {"files", "extra", "crash", "count"}),
    "N16": (RUN, {"mods", "inh", "calls", "count", "crash"}),
    "N24": (None, {"dangling", "closure", "crash"}),
}
ENGINES = ["plain", "pygit", "plain", "dulwich", "sequential_pygit", "plain"]


@contextlib.contextmanager
def scratch():
    """A directory that forked `now` processes do not remove when they exit"""
    tmp = tempfile.mkdtemp(prefix="store.")
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def job(j):
    beh, engine, want_rows = j
    r = storedrv.Replay(beh, engine)
    try:
        return r.run(rows=want_rows)
    except Exception:
        # the recorded state could not be read
        return {"init": beh["init"], "engine": engine, "error": traceback.format_exc(), "steps": []}


def env_for(tmp, prof):
    a, b = os.path.join(tmp, "progs.json"), os.path.join(tmp, "profile.json")
    with open(a, "w") as f:
        json.dump(sp.PROGS, f)
    with open(b, "w") as f:
        json.dump(prof, f)
    return {"PROGS": a, "PROFILE": b}


def explore(ck, tmp):
    small = {"s1": ["p1", "p2"], "s2": ["p9"], "mods": ["q1", "q2"], "data": ["v1", "v2"],
             "args": [""], "ctxs": ["main"], "skips": False, "files": False, "max": ck.pick(4, 5)}
    if ck.prop in ("N13", "N14"):
        small.update(skips=True)
    if ck.prop == "N15":
        small.update(files=True)
    if ck.prop in ("N12", "N02"):
        small.update(args=["", "a"], s1=["p0", "x1", "p8"], s2=["k0"], mods=["q1"], data=["v1"])
    if ck.prop == "N16":
        small.update(ctxs=["main", "package"], s1=["p1", "p10"], data=["v1"])
    r = tlc.explore("StoreMC", MC, env=env_for(tmp, small), timeout=600, heap="6g")
    ck.model(r, "Store, all histories of %d commands" % small["max"])


def behaviours(ck, tmp, total):
    profs = P[ck.prop]
    if ck.prop in ("N06", "N24"):
        names = sp.add_random(tlc.SEED * 1000 + 17, ck.pick(160, 900))
        profs = profs + [(5, ["edits", "run", "run", "runx", "editd", "del"], names, sp.MODS, 4)]
    share = sum(p[0] for p in profs)
    out = []
    for n, (w, kinds, scripts, mods, length) in enumerate(profs):
        num = max(1, total * w // share)
        env = env_for(tmp, {"kinds": kinds, "scripts": scripts, "mods": mods, "len": length})
        r = tlc.simulate("StoreGen", GEN, num, 2 * length + 2, env=env, seed=tlc.SEED * 100 + n)
        out += r.behaviours[:num]
        ck.states += r.generated
    return out


SIZE = {"N02": (72, 500), "N06": (150, 900), "N11": (90, 600), "N12": (72, 400), "N13": (96, 700),
        "N14": (84, 600), "N15": (100, 700), "N16": (100, 700), "N24": (90, 500)}


def main(ck):
    with scratch() as tmp:
        explore(ck, tmp)
        behs = behaviours(ck, tmp, ck.pick(*SIZE[ck.prop]))
        ck.say("%d behaviours generated" % len(behs))
        jobs = [(b, ENGINES[i % len(ENGINES)], ck.prop == "N24") for i, b in enumerate(behs)]
        nowdrv.preload()
        with mp.Pool(8) as pool:
            traces = pool.map(job, jobs, chunksize=1)
        ck.say("replayed %d commands" % sum(len(b["cmds"]) for b in behs))
        judge(ck, tmp, jobs, traces)


def judge(ck, tmp, jobs, traces):
    where, own = OWN[ck.prop]
    for j, t in zip(jobs, traces):
        if t.get("error"):
            ck.violate("unreadable store: " + t["error"].strip().splitlines()[-1],
                       t["error"], {"beh": j[0], "engine": j[1]})
    good = [(j, t) for j, t in zip(jobs, traces) if not t.get("error")]
    rows = [t.pop("rows", None) for _, t in good]
    notes = [[s.pop("note", "") for s in t["steps"]] for _, t in good]
    if good:
        bad, r = tlc.validate("StoreTrace", TRACE, [t for _, t in good], env=env_for(tmp, {}), heap="6g")
        ck.states += r.distinct
        ck.transitions += r.generated
        ck.traces += len(good)
        ck.count("commands compared", sum(len(t["steps"]) for _, t in good))
        for _, t in good:
            for s in t["steps"]:
                ck.count(s["c"]["cmd"], 1)
        done = set()
        for m in bad:
            j, t = good[m["tr"] - 1]
            c = t["steps"][m["l"] - 1]["c"]
            clauses = sorted(set(x[0] for x in m["bad"]))
            if m["tr"] in done:
                continue
            hit = [x for x in m["bad"] if x[0] in own and
                   (where is None or c["cmd"] in where)]
            ck.count("mismatching steps of any clause", 1)
            if not hit:
                continue
            done.add(m["tr"])
            ck.violate("%s at %s: %s" % (ck.prop, json.dumps(c), json.dumps(hit)),
                       {"command": c, "clauses": m["bad"], "expected": m["exp"],
                        "observed": t["steps"][m["l"] - 1]["o"], "stderr": notes[m["tr"] - 1][m["l"] - 1]},
                       {"beh": dict(j[0], cmds=j[0]["cmds"][:m["l"]]), "engine": j[1]})
    if ck.prop == "N24" and good:
        closure(ck, [r for r in rows], [{"beh": j[0], "engine": j[1]} for j, _ in good])
    for j, t in good[:3]:
        ck.sample({"init": {k: v for k, v in t["init"].items() if v != "-"}, "cmds": j[0]["cmds"],
                   "engine": j[1], "trials": [
                       {k: x[k] for k in ("script", "status", "code", "parent", "tag")}
                       for x in t["steps"][-1]["o"]["trials"]]})


def closure(ck, rows, sources):
    bad, r = tlc.validate("Closure", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", rows, heap="6g")
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.count("stores closed", len(rows))
    ck.count("rows of stores", sum(len(t[k]) for x in rows for t in x["trials"]
                                   for k in ("ev", "dep", "act", "cc", "mem", "comp")))
    for m in bad:
        ck.violate("reference: %s" % json.dumps(m["bad"][:6]), m["bad"], sources[m["tr"] - 1])


def replay(ck, rec):
    """Run one recorded behaviour again"""
    nowdrv.preload()
    if ck.prop in ("N06", "N24"):
        sp.add_random(tlc.SEED * 1000 + 17, 900)
    with scratch() as tmp:
        jobs = [(rec["beh"], rec["engine"], ck.prop == "N24")]
        judge(ck, tmp, jobs, [job(jobs[0])])
