"""Checks decided by spec/Content.tla (and ContentPar.tla): N09 N10."""
import contextlib, json, multiprocessing as mp, os, random, shutil, tempfile, traceback
import contents, contentdrv as cd, tlc

GEN = "SPECIFICATION Spec\nINVARIANT OneHash\nINVARIANT Apart\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
PAR = ("SPECIFICATION Spec\nCONSTANT Workers = {%s}\nCONSTANT Contents = {\"a\", \"b\"}\nCONSTANT Procs = {1}\n"
       "CONSTANT MaxPuts = %d\nCONSTANT Background = %s\nINVARIANT ReadyReadable\nINVARIANT AbsentRight\n"
       "%sCHECK_DEADLOCK FALSE\n")
MIXES = [["plain"], ["pygit"], ["sequential_pygit"], ["dulwich"], ["puregit"], ["gitdb"],
         ["pool_pygit"], ["threading_pygit"], ["distributed_dulwich"], ["pool_dulwich"], ["threading_dulwich"],
         ["distributed_pygit"],
         ["sequential_pygit", "dulwich", "puregit"], ["gitdb", "sequential_pygit", "dulwich"],
         ["pygit", "threading_dulwich"]]
BGS = ["threading_pygit", "threading_dulwich", "pygit", "distributed_dulwich", "pool_pygit", "pool_dulwich"]
SEQS = ["plain", "sequential_pygit", "dulwich", "puregit", "gitdb"]


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix="cont.")
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def job(j):
    beh, engines, kw = j
    try:
        return cd.Replay(kw["shim"], beh, engines, kw["tmp"], sched=kw.get("sched", ()),
                         gate=kw.get("gate", False)).run()
    except Exception:
        return {"error": traceback.format_exc()}


def generate(tmp, rng, mix, num, crash, lo=10, hi=26):
    bg = mix[0] in cd.BG
    plain = mix[0] == "plain"
    data = rng.sample(sorted(contents.DATA), 6)
    if rng.random() < 0.6:      # two contents with similar hashes
        pair = rng.choice(contents.PAIRS[contents.sha if plain else contents.git])
        data = list(pair) + [x for x in data if x not in pair][:4]
    prefixes = [3, 4, 5, 6, 7, 8, 9, 10, 20, 39] if plain else [7, 8, 9, 10, 12, 20, 39]
    prof = {"contents": data,
            "names": rng.sample(sorted(contents.NAMES), 5), "min": lo, "max": hi, "engines": len(mix),
            "bg": bg, "crash": crash, "prefixes": sorted(rng.sample(prefixes, 3)) + [40]}
    p = os.path.join(tmp, "prof.json")
    with open(p, "w") as f:
        json.dump(prof, f)
    return tlc.simulate("ContentGen", GEN, num, 3 * hi, env={"PROFILE": p}, seed=rng.randrange(1 << 30))


def again(jobs, recs):
    """A history counts as hung when it hangs twice"""
    for n, (j, r) in enumerate(zip(jobs, recs)):
        if any(e["k"] == "hung" for e in r.get("events", ())):
            other = job(j)
            print("hung: %s; again: %s" % (r["info"][-1:], other.get("info", ["?"])[-1:]))
            if "error" in other or not any(e["k"] == "hung" for e in other["events"]):
                recs[n] = other
    return recs


def judge(ck, jobs, recs):
    recs = again(jobs, recs)
    ok = [(j, r) for j, r in zip(jobs, recs) if "error" not in r]
    for j, r in zip(jobs, recs):
        if "error" in r:
            raise RuntimeError("replay failed: " + r["error"][-1500:])
    bad, r = tlc.validate("ContentTrace", TRACE, [x for _, x in ok])
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.traces += len(ok)
    seen = set()
    for x in bad:
        if x["tr"] in seen:
            continue
        seen.add(x["tr"])
        j, rec = ok[x["tr"] - 1]
        ev = x["ev"]
        eng = "/".join(j[1])
        what = "%s: %s at %s%s (%s)" % (eng, ",".join(x["bad"]), ev["k"],
                                        " of " + ev["c"] if "c" in ev else "", ev.get("note", "")[:160])
        ck.violate(what, {"mismatch": x, "events": rec["events"][max(0, x["l"] - 8):x["l"]]},
                   {"beh": j[0], "engines": j[1], "kw": {k: v for k, v in j[2].items() if k in ("sched", "gate")}})
    for _, rec in ok[:2]:
        ck.sample({"events": rec["events"][:12]})


def replay(ck, rec):
    with scratch() as tmp:
        kw = dict(rec["kw"], shim=cd.build_shim(tmp), tmp=tmp)
        jobs = [(rec["beh"], rec["engines"], kw)]
        judge(ck, jobs, [job(j) for j in jobs])


def par(a, b, kill=0):
    """Two processes at work at once, then a third one that looks"""
    x = [{"k": "put", "c": c, "n": n} for c, n in a] + [{"k": "close"}]
    y = [{"k": "put", "c": c, "n": n} for c, n in b] + [{"k": "close"}]
    cs = sorted({c for c, _ in a + b})
    return ([{"k": "par", "lists": [x, y], "kill": kill}, {"k": "open", "e": 1}] +
            [{"k": "get", "c": c} for c in cs] + [{"k": "list"}] +
            [{"k": "put", "c": c, "n": "plain"} for c in cs] + [{"k": "close"}] +
            [{"k": "get", "c": c} for c in cs] + [{"k": "list"}, {"k": "end"}])


def pick(rng, n):
    cs = rng.sample(["empty", "text", "nul", "all", "big", "utf8", "hdr", "bad"], n)
    return cs


def schedules(ck, pool, shim, tmp, beh, engine, budget):
    """Stateless search: every schedule of the recorded choices, breadth first, up to budget"""
    todo, done, jobs, recs = [()], set(), [], []
    while todo and len(jobs) < budget:
        batch = todo[:32]
        todo = todo[32:]
        js = [(beh, [engine], {"shim": shim, "tmp": tmp, "sched": list(p), "gate": True}) for p in batch]
        rs = pool.map(job, js)
        for p, j, r in zip(batch, js, rs):
            jobs.append(j)
            recs.append(r)
            if "error" in r:
                continue
            ch = r["info"][0]["choices"]
            for i in range(len(p), len(ch)):
                for alt in range(1, ch[i][1]):
                    q = tuple(c for c, _ in ch[:i]) + (alt,)
                    if q not in done:
                        done.add(q)
                        todo.append(q)
    ck.count("schedules of " + engine, len(jobs))
    ck.count("schedules left out of " + engine, len(todo))
    return jobs, recs


def main(ck):
    rng = random.Random(tlc.SEED * 7919 + (9 if ck.prop == "N09" else 10))
    with scratch() as tmp:
        shim = cd.build_shim(tmp)
        jobs, recs = [], []
        if ck.prop == "N10":
            for bg in ("TRUE", "FALSE"):
                r = tlc.explore("ContentPar", PAR % ("1, 2" if not ck.thorough else "1, 2, 3", ck.pick(3, 4), bg,
                                                     "PROPERTY CloseEnds\n"), heap="6g")
                ck.model(r, "ContentPar background=" + bg)
        with mp.Pool(8) as pool:
            if ck.prop == "N09":
                for mix in MIXES:
                    g = generate(tmp, rng, mix, ck.pick(10, 60), False)
                    ck.states += g.generated
                    for b in g.behaviours:
                        jobs.append((b, mix, {"shim": shim, "tmp": tmp}))
                # every name and every content alone, in every kind of engine
                for e in SEQS + ["pygit"]:
                    for n in sorted(contents.NAMES):
                        jobs.append(([{"k": "open", "e": 1}, {"k": "put", "c": "text", "n": n}, {"k": "commit"},
                                      {"k": "put", "c": "one", "n": n}, {"k": "put", "c": "nul", "n": "deep"},
                                      {"k": "commit"}, {"k": "gc"}, {"k": "end"}, {"k": "open", "e": 1},
                                      {"k": "get", "c": "text"}, {"k": "get", "c": "one"}, {"k": "list"},
                                      {"k": "end"}], [e], {"shim": shim, "tmp": tmp}))
                    jobs.append(([{"k": "open", "e": 1}] +
                                 [{"k": "put", "c": c, "n": "same"} for c in sorted(contents.DATA)] +
                                 [{"k": "commit"}, {"k": "list"}, {"k": "age"}, {"k": "gc", "a": True}, {"k": "list"}, {"k": "end"},
                                  {"k": "open", "e": 1}] +
                                 [{"k": "get", "c": c} for c in sorted(contents.DATA)] + [{"k": "end"}],
                                 [e], {"shim": shim, "tmp": tmp}))
                    # every prefix of every content
                    lengths = list(range(3 if e == "plain" else 7, 13)) + [20, 39, 40]
                    jobs.append(([{"k": "open", "e": 1}] +
                                 [{"k": "put", "c": c, "n": "same"} for c in sorted(contents.DATA)] +
                                 [{"k": "commit"}, {"k": "end"}, {"k": "open", "e": 1}] +
                                 [{"k": "find", "c": c, "n": n} for c in sorted(contents.DATA) for n in lengths] +
                                 [{"k": "end"}], [e], {"shim": shim, "tmp": tmp}))
                recs = pool.map(job, jobs, chunksize=2)
            else:
                for mix in MIXES:
                    g = generate(tmp, rng, mix, ck.pick(5, 60), True, 8, 20)
                    ck.states += g.generated
                    for b in g.behaviours:
                        jobs.append((b, mix, {"shim": shim, "tmp": tmp, "gate": True,
                                              "sched": [rng.randrange(4) for _ in range(60)]}))
                # every crash point of storing, one after the other
                for e in SEQS + BGS:
                    top = ck.pick(14, 40)
                    for at in range(top + 1):
                        c, d, f = pick(rng, 3)
                        jobs.append((
                            [{"k": "open", "e": 1}, {"k": "put", "c": c, "n": "plain"}, {"k": "end"},
                             {"k": "open", "e": 1}, {"k": "put", "c": d, "n": "deep"}, {"k": "put", "c": f, "n": "same"},
                             {"k": "crash", "at": 100 * at // top}, {"k": "open", "e": 1}] +
                            [{"k": "get", "c": x} for x in (c, d, f)] +
                            [{"k": "put", "c": x, "n": "uni"} for x in (d, f, c)] + [{"k": "close"}] +
                            [{"k": "get", "c": x} for x in (c, d, f)] + [{"k": "list"}, {"k": "end"}],
                            [e], {"shim": shim, "tmp": tmp, "gate": True,
                                  "sched": [rng.randrange(3) for _ in range(20)]}))
                # processes that store at the same time
                for e in SEQS + ["pygit", "threading_dulwich"]:
                    for n in range(ck.pick(6, 60)):
                        c, d, f = pick(rng, 3)
                        beh = par([(c, "plain"), (d, "plain")], [(c, "plain"), (f, "deep")],
                                  kill=0 if n % 3 else rng.randrange(1, 14))
                        if n % 2:
                            beh = [{"k": "open", "e": 1}, {"k": "put", "c": "one", "n": "plain"}, {"k": "end"}] + beh
                        jobs.append((beh, [e], {"shim": shim, "tmp": tmp, "gate": True,
                                                "sched": [rng.randrange(3) for _ in range(60)]}))
                recs = pool.map(job, jobs, chunksize=2)
                for e in ["threading_pygit", "threading_dulwich", "pool_pygit", "pygit"]:
                    beh = ([{"k": "open", "e": 1}, {"k": "put", "c": "text", "n": "plain"},
                            {"k": "put", "c": "nul", "n": "plain"}, {"k": "put", "c": "text", "n": "deep"},
                            {"k": "close"}, {"k": "get", "c": "text"}, {"k": "get", "c": "nul"}, {"k": "list"},
                            {"k": "put", "c": "all", "n": "plain"}, {"k": "close"}, {"k": "get", "c": "all"},
                            {"k": "get", "c": "nul"}, {"k": "end"}])
                    js, rs = schedules(ck, pool, shim, tmp, beh, e, ck.pick(48, 1500))
                    jobs += js
                    recs += rs
        ck.say("%d histories of the content store" % len(jobs))
        ck.count("operations", sum(len(r.get("events", ())) for r in recs))
        ck.count("crashes", sum(1 for r in recs for e in r.get("events", ()) if e["k"] == "crash"))
        judge(ck, jobs, recs)
