"""Processes that use the content store.

content_child.py        reads one line per session from stdin: {"spec", "res", "env"}; forks a
                        process for it, which runs the operations of `spec` and appends the
                        result of each to `res` once it returned; answers with its pid."""
import json, os, sys, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ["CONTENT_CAP"])
import warnings
warnings.simplefilter("ignore")
import multiprocessing
COUNT = [2]
multiprocessing.cpu_count = lambda: COUNT[0]
from contents import DATA, NAMES, WHICH
import noworkflow.now.persistence as pers
import pygit2, dulwich.repo, gitdb  # noqa
import noworkflow.now.persistence.content.pygit_engine, noworkflow.now.persistence.content.dulwich_engine  # noqa
import noworkflow.now.persistence.content.puregit_engine, noworkflow.now.persistence.content.gitdb_engine  # noqa
import multiprocessing.managers, multiprocessing.pool, multiprocessing.synchronize  # noqa


KNOWN = {}


def do(content, op):
    k = op["k"]
    if k in ("get", "find"):
        op["hash"] = KNOWN.get(op["c"]) or op.get("hash")
        if not op["hash"]:
            return {"skip": True}
    if k == "put":
        h = content.put(DATA[op["c"]], NAMES[op["n"]])
        KNOWN[op["c"]] = h = h if isinstance(h, str) else "?" + repr(h)
        return {"hash": h}
    if k == "get":
        try:
            b = content.get(op["hash"])
        except Exception as ex:
            return {"res": "!", "note": repr(ex)[:200]}
        if not isinstance(b, bytes):
            return {"res": "?" + type(b).__name__}
        return {"res": WHICH.get(b, "?")}
    if k == "find":
        try:
            h = content.find_subhash(op["hash"][:op["n"]])
        except Exception as ex:
            return {"res": "!", "used": op["hash"], "note": repr(ex)[:200]}
        return {"res": h or "-", "used": op["hash"]}
    if k == "list":
        return {"res": sorted(content.listAll())}
    if k == "close":
        content.close()
    elif k == "commit":
        content.commit_content(op.get("m", "message"))
    elif k == "gc":
        content.gc(op.get("aggressive", False))
    elif k == "age":
        old = time.time() - 86400 * 60
        for d, ds, fs in os.walk(content.content_database_engine.content_path):
            for f in fs:
                os.utime(os.path.join(d, f), (old, old))
    return {}


def session(spec, res):
    out = open(res, "a")

    def tell(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()
    COUNT[0] = spec.get("workers", 2)
    os.chdir(spec["base"])
    config, content = pers.persistence_config, pers.content
    config.content_engine = spec["engine"]
    try:
        if not os.path.isdir(os.path.join(spec["base"], ".noworkflow")):
            os.makedirs(os.path.join(spec["base"], ".noworkflow"), exist_ok=True)
        config.base_path = spec["base"]
        config.provenance_path = os.path.join(spec["base"], ".noworkflow")
        content.set_path(config)
        content.connect(config)
    except Exception as ex:
        tell(i=0, bad="open", note=repr(ex)[:300])
        return 3
    tell(i=0)
    for i, op in enumerate(spec["ops"], 1):
        try:
            tell(i=i, **do(content, op))
        except Exception as ex:
            tell(i=i, bad=type(ex).__name__, note=repr(ex)[:300])
    out.close()
    return 0


def main():
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    for line in sys.stdin:
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.environ.update(job["env"])
                fd = os.open(job["err"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                nul = os.open(os.devnull, os.O_RDONLY)
                os.dup2(nul, 0); os.dup2(fd, 1); os.dup2(fd, 2)
                with open(job["spec"]) as f:
                    spec = json.load(f)
                session(spec, job["res"])
                sys.stdout.flush()
            finally:
                os._exit(0)
        done, status = 0, None
        sys.stdout.write("%d\n" % pid)
        sys.stdout.flush()
        os.waitpid(pid, 0)
        sys.stdout.write("done\n")
        sys.stdout.flush()


main()
