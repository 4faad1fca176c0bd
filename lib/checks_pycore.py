"""Checks decided by spec/PyCore.tla: N01 N03 N04 N05 N07.

Programs are run under noWorkflow in several ways (variants); TLC runs the machine of the
specification on each program and compares what was recorded and printed with it."""
import json, multiprocessing as mp, random, re
import nowdrv, pycore, tlc

CFG = "SPECIFICATION TSpec\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n"
FULL = {"what": "full"}


def depth(k):
    return {"what": "depth %d" % k, "args": ["-d", str(k)], "depth": k}


def saves(points):
    return {"what": "saved at every moment" if points == 0 else "saved at %s" % points, "save": points}


# which mismatches belong to a property: clause -> kinds of evaluations (None: any)
OWN = {
    "N01": {"out": None, "end": None},
    "N03": {"missing": {"call", "param"}, "extra": {"call"}, "rep": {"call", "param"}, "call": None,
            "name": None, "up": {"call", "param"}, "time": None},
    "N04": {c: None for c in ("out", "end", "missing", "extra", "deps", "rep", "call", "name", "up")},
    "N05": {c: None for c in ("missing", "extra", "deps", "rep", "call", "name", "up", "time", "twice", "rows")},
    "N07": {"missing": {"value", "param"}, "extra": {"value"}, "deps": None, "rep": {"value"}},
}


def variants(prop, rng):
    if prop == "N04":
        return [depth(1), depth(2), depth(3)]
    if prop == "N05":
        return [saves(0), saves(sorted(rng.sample(range(1, 400), 12))), saves([rng.randrange(1, 60)])]
    if prop == "N01":
        return [FULL, depth(rng.choice([0, 1, 2]))]
    return [FULL]


COUNT = {"N01": (120, 1500), "N03": (220, 4000), "N04": (110, 1800), "N05": (110, 1800), "N07": (220, 4000)}


def jobs(ck, rng):
    n = ck.pick(*COUNT[ck.prop])
    out = []
    for i in range(n):
        size = rng.choice([4, 6, 8, 10]) if not ck.thorough else rng.choice([4, 6, 8, 10, 13])
        out.append((rng.randrange(1 << 28), size, variants(ck.prop, rng)))
    return out


def judge(ck, cases):
    try:
        judge_all(ck, cases)
    except tlc.TLCError as e:
        if len(cases) < 2 and "Overflow" not in str(e):
            raise
        if len(cases) < 2:      # numbers that TLC cannot represent
            return ck.count("programs the specification does not cover", 1)
        for half in (cases[:len(cases) // 2], cases[len(cases) // 2:]):
            judge(ck, half)


def judge_all(ck, cases):
    tr = [{"prog": c["prog"], "variants": c["variants"]} for c in cases]
    bad, r = tlc.validate("PyCoreTrace", CFG, tr, heap="8g", timeout=500)
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.traces += sum(len(c["variants"]) for c in cases)
    own = OWN[ck.prop]
    for x in bad:
        c = cases[x["tr"] - 1]
        v = c["variants"][x["l"] - 1]
        if v["plain"]:
            # the machine and Python disagree: the specification is wrong about this program
            ck.count("programs the specification does not cover", 1)
            continue
        mine = [q for q in x["bad"] if q[0] in own and (own[q[0]] is None or q[3] in own[q[0]])]
        if mine and not any(y["tr"] == x["tr"] and cases[y["tr"] - 1]["variants"][y["l"] - 1]["plain"] for y in bad):
            q = mine[0]
            ck.violate("%s %s %s (%s)" % (v["what"], q[0], q[1], q[2][:200]),
                       {"program": c["text"], "bad": mine[:20]},
                       {"seed": c["seed"], "size": c["size"], "variants": c["job"]})


def case(job):
    c = pycore.case(job)
    if c:
        c["job"] = job[2]
    return c


def main(ck):
    rng = random.Random(tlc.SEED * 10007 + int(ck.prop[1:]))
    nowdrv.preload()
    todo = jobs(ck, rng)
    with mp.get_context("fork").Pool(8) as pool:
        for i in range(0, len(todo), 400):
            cases = [c for c in pool.map(case, todo[i:i + 400], chunksize=1) if c]
            ck.count("programs", len(cases))
            for c in cases[:2]:
                ck.sample({"program": c["text"][:1500], "evaluations": len(c["variants"][1]["evals"])})
            judge(ck, cases)
        if ck.prop == "N01":
            import pycorpus
            pycorpus.main(ck, pool)
    if ck.counts["programs"] < 0.8 * len(todo) or \
            ck.counts.get("programs the specification does not cover", 0) > 0.1 * len(todo):
        raise RuntimeError("too few programs were decided: %r" % ck.counts)
    ck.assume.append("the machine of PyCore.tla was checked against the plain interpreter on the same programs")


def replay(ck, rec):
    nowdrv.preload()
    if "corpus" in rec:
        import pycorpus
        return pycorpus.replay(ck, rec)
    judge(ck, [case((rec["seed"], rec["size"], rec["variants"]))])
