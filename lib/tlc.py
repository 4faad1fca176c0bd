"""Run TLC: exhaustive checks, behaviour generation (-simulate) and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class TLCError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (
            tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = re.findall(r"Error: Invariant (\S+) is violated", out) + \
            re.findall(r"Error: Action property (\S+) is violated", out) + \
            (["temporal"] if "Temporal properties were violated" in out else [])
        self.ok = "No error has been found" in out

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


def run(module, cfg, env=None, workers=8, timeout=600, heap="4g", args=(), stack=None,
        keep=None, first=None):
    """Run TLC on spec/<module>.tla with the text `cfg` as configuration."""
    tmp = tempfile.mkdtemp(prefix="tlc.")
    try:
        cfgp = os.path.join(tmp, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + (stack or "64m"),
               "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(tmp, "meta"),
               "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE"]
        cmd += list(args)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=min(timeout, first or timeout))
        except subprocess.TimeoutExpired:
            if not first:
                raise
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        if keep:
            with open(keep, "w") as f:
                f.write(out)
        return TLCResult(out, p.returncode, time.time() - t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(module, cfg, env=None, **kw):
    """Exhaustive model checking; any violation of the spec's own invariants is an error
    of the specification (the design), reported by the caller."""
    r = run(module, cfg, env=env, **kw)
    if not r.ok and not r.violated:
        raise TLCError("TLC failed on %s:\n%s" % (module, r.tail(60)))
    return r


def simulate(module, cfg, num, depth, env=None, seed=None, timeout=300, **kw):
    """Random behaviours of the specification. The spec prints complete ones as
    lines "@@<json>"."""
    seed = SEED if seed is None else seed
    r = run(module, cfg, env=env, workers=1, timeout=timeout,
            args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], **kw)
    got = []
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            got.append(json.loads(json.loads(line)[2:]))
    if not got:
        raise TLCError("no behaviours from %s:\n%s" % (module, r.tail(60)))
    r.behaviours = got
    return r


def printed(out, tag):
    """Tuples printed as <<"tag", json>> through PrintT("tag" \\o ToJson(x))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            res.append(json.loads(json.loads(line)[len(tag):]))
    return res


def validate(module, cfg, traces, env=None, timeout=800, workers=8, first=200, **kw):
    """Check a batch of recorded traces against a trace specification.

    The spec reads the JSON file named by environment TRACES, steps every trace to its end
    and prints "!!<json>" for every mismatch {tr, l, bad:[...]} and "##<json>" once for every
    trace that was read to the end. Returns (mismatches, TLCResult). Raises when any trace was
    not read to the end: the verdict must be total."""
    tmp = tempfile.mkdtemp(prefix="tlctr.")
    try:
        p = os.path.join(tmp, "traces.json")
        with open(p, "w") as f:
            json.dump(traces, f)
        e = dict(env or {})
        e["TRACES"] = p
        # (a run that takes too long, with the machine suspended for instance, is repeated)
        r = run(module, cfg, env=e, timeout=timeout, workers=workers, first=first, **kw)
        if not r.ok:
            raise TLCError("trace validation of %s failed:\n%s\n%s" % (module, [l for l in r.out.splitlines() if "Error" in l or "rror:" in l][:4], r.tail(80)))
        done = set(x["tr"] for x in printed(r.out, "##"))
        missing = set(range(1, len(traces) + 1)) - done
        if missing:
            raise TLCError("traces not read to the end by %s: %s\n%s"
                           % (module, sorted(missing)[:10], r.tail(40)))
        bad, seen = [], set()
        for x in printed(r.out, "!!"):
            key = json.dumps(x, sort_keys=True)
            if key not in seen:
                seen.add(key)
                bad.append(x)
        bad.sort(key=lambda x: (x["tr"], x["l"]))
        return bad, r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
