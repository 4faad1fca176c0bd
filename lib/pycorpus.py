"""Scripts that use every construct of the language, run plainly and captured (spec/PyObs.tla).

A snippet of corpus/*.txt is run as it is and inside several contexts (a function, a method, a
try, a loop, an imported module), because capturing rewrites code differently in each of them."""
import glob, hashlib, os, random, re, shutil, subprocess, tempfile
import nowdrv, pycore, tlc

CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
HERE = os.path.dirname(os.path.abspath(__file__))
STDIN = "first line\nsecond\n"


def snippets():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "corpus", "*.txt"))):
        name = None
        for line in open(f, encoding="utf-8"):
            if line.startswith("#----"):
                name = line[5:].strip()
                assert name not in out, name
                out[name] = ""
            else:
                out[name] += line
    return out


def indent(s, n=1):
    """Indent a snippet, except the inner lines of texts with several lines"""
    import io, tokenize
    skip = set()
    for t in tokenize.generate_tokens(io.StringIO(s).readline):
        if t.type == tokenize.STRING and t.start[0] != t.end[0]:
            skip.update(range(t.start[0] + 1, t.end[0] + 1))
    return "".join(("    " * n + l if l.strip() and i not in skip else l)
                   for i, l in enumerate(s.splitlines(True), 1))


def top(s):
    return {"prog.py": s}


def function(s):
    return {"prog.py": "def whole():\n%s\nwhole()\nprint('after')\n" % indent(s)}


def loop(s):
    return {"prog.py": "for _i in range(2):\n    if _i == 1:\n%s\nprint('after')\n" % indent(s, 2)}


def handler(s):
    return {"prog.py": "try:\n    {}['first']\nexcept KeyError:\n    try:\n%s\n    finally:\n        print('after')\n" % indent(s, 2)}


def module(s):
    return {"prog.py": "import part\nprint(sorted(x for x in vars(part) if len(x) == 1))\n", "part.py": s}


CONTEXTS = {"script": top, "function": function, "loop": loop, "handler": handler, "module": module}
WAYS = {"": [], "depth 0": ["-d", "0"], "depth 1": ["-d", "1"], "all": ["-c", "all"], "save often": ["-s", "1"]}


def events(d, out, err, end):
    ev = [["out", x] for x in out.split("\n")]
    ev += [["err", x] for x in err.split("\n")]
    for dp, dn, fs in os.walk(d):
        dn[:] = sorted(x for x in dn if x not in (".noworkflow", "__pycache__"))
        for f in sorted(fs):
            p = os.path.join(dp, f)
            ev.append(["file", os.path.relpath(p, d) + " " + hashlib.sha1(open(p, "rb").read()).hexdigest()[:12]])
    return ev + [["end", end]]


def clean(d, s):
    s = s.replace(d, "DIR")
    return re.sub(r" at 0x[0-9a-f]+", " at 0x", s)


def plain(d):
    p = subprocess.run([pycore.PLAIN, "-W", "ignore", "prog.py"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=60, input=STDIN.encode(), env=env(d))
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    end = "ok"
    if p.returncode:
        i = max(err.rfind("Traceback (most recent call last)"), err.rfind("  + Exception Group Traceback"))
        if i >= 0:
            end = "exc " + err.strip().splitlines()[-1]
            j = err.find("Traceback (most recent call last)")
            err = err[:j]
        elif p.returncode == 1 and err.strip():
            end = "exit " + err.strip().splitlines()[-1]
            err = "\n".join(err.rstrip("\n").split("\n")[:-1])
        else:
            end = "exit %d" % p.returncode
    return events(d, clean(d, out), clean(d, err), clean(d, end))


def env(d):
    return {"PATH": os.environ["PATH"], "HOME": d, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}


def captured(d, args):
    # (a directory without the script's input, removed below)
    fi = d + ".in"
    with open(fi, "w") as f:
        f.write(STDIN)
    try:
        r = nowdrv.now(d, "run", *(args + ["prog.py"]), stdin=fi, timeout=120)
    finally:
        os.unlink(fi)
    if r.hung:
        return events(d, r.out, r.err, "hung")
    out, end = r.out, "ok"
    k = out.rfind("[now] ")
    if k >= 0:
        msg, out = out[k + 6:], out[:k]
        m = re.search(r"the execution exited via sys.exit\(\). Exit status: (.*)", msg, re.S)
        if m:
            # what finalizers print comes after the status
            status, _, rest = m.group(1).partition("\n")
            end, out = "exit " + status, out + rest
        elif "uncaught exception" in msg:
            end = "exc " + msg.strip().splitlines()[-1]
        else:
            end = "?" + msg.rstrip("\n")
    status = pycore.rows(d, "select status from trial order by start desc limit 1")
    if not status:
        end += " no trial"
    elif (status[0][0] == "finished") != (end == "ok"):
        end += " status " + status[0][0]
    if r.rc not in (0, None):
        end += " code %s" % r.rc
    return events(d, clean(d, out), clean(d, r.err), clean(d, end))


def job(j):
    name, ctx, ways = j
    snip = snippets().get(name)
    if snip is None:
        snip = name
    d = tempfile.mkdtemp(prefix="corpus.")
    try:
        try:
            files = CONTEXTS[ctx](snip)
        except Exception:
            return None
        try:
            compile(files["prog.py"], "prog.py", "exec")
        except SyntaxError:
            return None          # (import * in a function, for instance)

        def fresh():
            shutil.rmtree(d)
            os.mkdir(d)
            for f, s in files.items():
                with open(os.path.join(d, f), "w", encoding="utf-8") as g:
                    g.write(s)
        fresh()
        ref = plain(d)
        runs = []
        for w in ways:
            fresh()
            runs.append({"way": w, "events": captured(d, WAYS[w])})
        return {"name": name, "ctx": ctx, "ref": ref, "runs": runs, "files": files}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ck, cases):
    flat = [(c, r) for c in cases for r in c["runs"]]
    bad, r = tlc.validate("PyObs", CFG, [{"ref": c["ref"], "got": r["events"]} for c, r in flat], heap="6g")
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.traces += len(flat)
    for x in bad:
        c, r = flat[x["tr"] - 1]
        ck.violate("construct '%s' in %s%s: plain %s, captured %s" % (
            c["name"], c["ctx"], " (%s)" % r["way"] if r["way"] else "", x["bad"][0], x["bad"][1]),
            {"files": c["files"]}, {"corpus": c["name"], "ctx": c["ctx"], "ways": [r["way"]]})


def main(ck, pool):
    rng = random.Random(tlc.SEED * 77)
    jobs = []
    for name in snippets():
        if ck.thorough:
            jobs += [(name, c, sorted(WAYS)) for c in CONTEXTS]
        else:
            jobs.append((name, "script", ["", rng.choice(sorted(WAYS)[1:])]))
            jobs.append((name, "function", [""]))
            jobs.append((name, rng.choice(["loop", "handler", "module"]), [rng.choice(sorted(WAYS))]))
    cases = [c for c in pool.map(job, jobs, chunksize=1) if c]
    ck.count("corpus programs", len(cases))
    ck.count("corpus runs", sum(len(c["runs"]) for c in cases))
    judge(ck, cases)


def replay(ck, rec):
    judge(ck, [job((rec["corpus"], rec["ctx"], rec["ways"]))])
