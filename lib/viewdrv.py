"""A viewer: a process that keeps a store open and answers requests for its views, as a notebook
or the server does, while other processes record trials in it. And the rows of the store."""
import io, json, os, random, re, signal, sqlite3, sys, traceback
import nowdrv


# ---------------------------------------------------------------- the viewer (runs in a child)
def a_history(q):
    from noworkflow.now.models.history import History
    h = History()
    h.script, h.status, h.summarize = q["script"], q["status"], q["sum"]
    r = h.graph.history_data()
    ids = [[t.id for t in n.trials] if hasattr(n, "trials") else [n.id] for n in r["nodes"]]
    h.graph.graph()
    repr(h)
    return {"nodes": ids, "edges": [[ids[e["source"]], ids[e["target"]]] for e in r["edges"]]}


def text(x):
    return "" if x is None else str(x)


ITEM = {
    "modules": lambda m: [text(m.name), text(m.version), text(m.code_hash)],
    "environment": lambda e: [text(e.name), text(e.value)],
    "accesses": lambda f: [text(f.name), text(f.mode), text(f.content_hash_before), text(f.content_hash_after)],
}


def a_diff(q):
    from noworkflow.now.models.diff import Diff
    d = Diff(q["t1"], q["t2"])
    from noworkflow.now.persistence.models import Trial
    out = {"trial": sorted(d.trial), "keys": sorted(Trial(q["t1"]).to_dict(
        ignore=("id",), extra=("start", "finish", "duration_text", "code_hash")))}
    for k, v in (("modules", d.modules), ("environment", d.environment), ("accesses", d.file_accesses)):
        f = ITEM[k]
        out[k] = {"added": sorted(map(f, v[0])), "removed": sorted(map(f, v[1])),
                  "replaced": sorted([f(a), f(b)] for a, b in v[2])}
    return out


def a_graph(q):
    from noworkflow.now.persistence.models import Trial
    t = Trial(q["trial"])
    g = t.graph
    g.use_cache = q["cache"]
    finished, graph, nodes = {0: g.tree, 1: g.no_match, 2: g.exact_match, 3: g.namespace_match}[q["mode"]]()
    tid = q["trial"]
    edges = []
    for e in graph["edges"]:
        for k, c in (e["count"].items() if isinstance(e["count"], dict) else [("", e["count"])]):
            edges.append([e["source"] + 1, e["target"] + 1, e["type"], c])
    return {"nodes": [{"ids": list(n.activations[tid]), "dur": n.duration[tid], "up": n.parent_index + 1,
                       "name": n.name, "kids": [c.index + 1 for c in n.children]} for n in nodes],
            "edges": sorted(edges)}


def a_export(q):
    from noworkflow.now.persistence.models import Trial
    from noworkflow.now.utils.prolog import PrologTimestamp
    PrologTimestamp.use_nil = q["hide"]
    return parse_export(Trial(q["trial"]).prolog.export_text_facts())


def dot(q, ev):
    """Evaluations and arrows of the whole dependency graph, or of the slice of an evaluation"""
    from argparse import Namespace
    from noworkflow.now.persistence.models import Trial
    t = Trial(q["trial"])
    t.dependency_config.read_args(Namespace(accesses=0, types=q["types"], hide_timestamps=True, hide_internals=False,
                                            evaluations=0, depth=0, group=0, mode="dependency", wdf=ev, trial=q["trial"]))
    t.dot.value_length, t.dot.name_length = 0, 55
    text = t.dot.export_text()
    return (sorted({int(x) for x in re.findall(r"^\s*e_(\d+) \[", text, re.M)}),
            sorted({(int(a), int(b)) for a, b in re.findall(r"^\s*e_(\d+) -> e_(\d+)", text, re.M)}))


def a_slice(q):
    from noworkflow.now.persistence.models import Trial
    from noworkflow.now.models.dependency_graph.filters import FilterWasDerivedFrom
    all_, allarcs = dot(q, None)
    nodes, arcs = dot(q, q["ev"])
    f = FilterWasDerivedFrom(q["ev"], q["trial"])
    return {"nodes": nodes, "arcs": arcs, "all": all_, "allarcs": allarcs, "list": sorted({e.id for e in f.was_derived_from_list})}


ASK = {"slice": a_slice, "history": a_history, "diff": a_diff, "graph": a_graph, "export": a_export}


def serve(d, r, w):
    import multiprocessing.process as mpp
    mpp.current_process()._config.pop("daemon", None)      # (not a worker: it may start processes)
    os.chdir(d)
    sys.stdout = sys.stderr = io.StringIO()
    from noworkflow.now.persistence import persistence_config
    persistence_config.connect_existing(d)
    for line in r:
        q = json.loads(line)
        try:
            a = ASK[q["k"]](q)
        except BaseException:
            a = {"failed": traceback.format_exc()[-1500:]}
        w.write(json.dumps(a) + "\n")
        w.flush()


class Viewer(object):
    def __init__(self, d):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            os.setpgid(0, 0)
            out = os.fdopen(w2, "w")
            try:
                serve(d, os.fdopen(r1), out)
            except BaseException:
                out.write(json.dumps({"failed": traceback.format_exc()[-1500:]}) + "\n")
                out.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, "w"), os.fdopen(r2)

    def ask(self, q):
        try:
            self.w.write(json.dumps(q) + "\n")
            self.w.flush()
        except OSError:
            pass
        line = self.r.readline()
        return json.loads(line) if line else {"failed": "the viewer died"}

    def close(self):
        for f in (self.w, self.r):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


# ---------------------------------------------------------------- the rows of a store
def rows(d, sql, *a):
    c = sqlite3.connect(os.path.join(d, ".noworkflow", "db.sqlite"), timeout=20)
    try:
        c.row_factory = sqlite3.Row
        return [dict(r) for r in c.execute(sql, a)]
    finally:
        c.close()


def trials(d):
    out = []
    hashes = {(r["trial_id"], r["id"]): r["code_hash"] for r in rows(d, "select trial_id, id, code_hash from code_block")}
    tags = {}
    for r in rows(d, "select trial_id, name from tag where type='AUTO'"):
        tags.setdefault(r["trial_id"], []).append(".".join(r["name"].split(".")[:2]))
    for n, t in enumerate(rows(d, "select * from trial order by start")):
        cols = {k: text(v) for k, v in t.items() if k != "id"}
        cols["code_hash"] = text(hashes.get((t["id"], t["main_id"])))
        out.append({"id": t["id"], "script": t["script"], "status": t["status"], "parent": text(t["parent_id"]),
                    "n": n + 1, "vers": tags.get(t["id"], []), "cols": cols})
    return out


def items(d, t):
    inherited = t["cols"]["modules_inherited_from_trial_id"] or t["id"]
    return {
        "modules": [[text(r["name"]), text(r["version"]), text(r["code_hash"])] for r in rows(
            d, "select m.name, m.version, b.code_hash from module m left join code_block b"
               " on b.id=m.code_block_id and b.trial_id=m.trial_id where m.trial_id=?", inherited)],
        "environment": [[text(r["name"]), text(r["value"])] for r in rows(
            d, "select name, value from environment_attr where trial_id=?", t["id"])],
        "accesses": [[text(r["name"]), text(r["mode"]), text(r["content_hash_before"]), text(r["content_hash_after"])]
                     for r in rows(d, "select * from file_access where trial_id=?", t["id"])],
    }


def activations(d, tid):
    out = []
    for r in rows(d, "select a.id, a.name, a.start_checkpoint t0, e.checkpoint t1, e.activation_id up,"
                     " c.first_char_line line from activation a join evaluation e on e.id=a.id and"
                     " e.trial_id=a.trial_id join code_component c on c.id=e.code_component_id and"
                     " c.trial_id=a.trial_id where a.trial_id=? order by a.start_checkpoint, a.id", tid):
        out.append({"id": r["id"], "name": r["name"], "up": r["up"] or 0, "line": r["line"],
                    "dur": int((r["t1"] - r["t0"]) * 1000000)})
    return out


# ---------------------------------------------------------------- facts
FACTS = {
    "trial": ("trial", "id script start finish command status modules_inherited_from_trial_id parent_id main_id", "id"),
    "tag": ("tag", "trial_id name type timestamp", "trial_id"),
    "argument": ("argument", "trial_id name value", "trial_id"),
    "module": ("module", "trial_id id name version path code_block_id transformed fullpath", "trial_id"),
    "environment": ("environment_attr", "trial_id name value", "trial_id"),
    "code_component": ("code_component", "trial_id id name type mode first_char_line first_char_column last_char_line last_char_column"
                       " container_id", "trial_id"),
    "code_block": ("code_block", "trial_id id code_hash docstring", "trial_id"),
    "activation": ("activation", "trial_id id name start_checkpoint code_block_id", "trial_id"),
    "evaluation": ("evaluation", "trial_id id checkpoint code_component_id activation_id repr member_container_id", "trial_id"),
    "dependency": ("dependency", "trial_id dependent_activation_id dependent_id dependency_activation_id dependency_id type reference"
                   " collection_activation_id collection_id key", "trial_id"),
    "access": ("file_access", "trial_id id name mode content_hash_before content_hash_after checkpoint activation_id", "trial_id"),
    "member": ("member", "trial_id collection_activation_id collection_id member_activation_id member_id key checkpoint type", "trial_id"),
}
TIMES = ("start", "finish", "timestamp")


def field(kind, c, v):
    from datetime import datetime
    if v is None:
        return {"k": "nil", "v": []}
    if c in TIMES:
        t = datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f" if "." in v else "%Y-%m-%d %H:%M:%S")
        v = str((t - datetime(1970, 1, 1)).total_seconds())
    elif c in ("transformed", "reference"):
        v = "1" if v else "0"
    elif kind == "access" and c == "id":
        v = "f%d" % v
    return {"k": "v", "v": list(str(v))}


def facts(d, tid):
    out = {}
    for kind, (table, cols, key) in FACTS.items():
        t = tid
        if kind == "module":
            t = rows(d, "select modules_inherited_from_trial_id m from trial where id=?", tid)[0]["m"] or tid
        rs = rows(d, "select * from %s where %s=?" % (table, key), t)
        if len(rs) > 150:        # (the collector repeats itself; the number of facts is kept)
            pass
        out[kind] = sorted([field(kind, c, r[c]) for c in cols.split()] for r in rs) if False else [
            [field(kind, c, r[c]) for c in cols.split()] for r in rs]
    return out


def parse_export(text):
    """The facts of the text by kind, in order, and the lines that are none"""
    out = {"facts": {k: [] for k in FACTS}, "raw": {k: [] for k in FACTS}, "other": []}
    for line in text.split("\n"):
        if not line.strip() or line.startswith("%") or line.startswith(":- dynamic("):
            continue
        m = re.match(r"([a-z_]+)\((.*)$", line, re.S)
        if m and m.group(1) in FACTS:
            out["facts"][m.group(1)].append(list(m.group(2)))
            out["raw"][m.group(1)].append(line)
        else:
            out["other"].append(line)
    return out


# ---------------------------------------------------------------- dependencies
def dataflow(d, tid):
    ev = rows(d, "select id, checkpoint, member_container_id box from evaluation where trial_id=?", tid)
    me = rows(d, "select collection_id box, key, checkpoint, member_id id from member where trial_id=?", tid)
    rank = {c: i + 1 for i, c in enumerate(sorted({r["checkpoint"] for r in ev + me}))}
    return {"evals": [{"id": r["id"], "cp": rank[r["checkpoint"]], "box": r["box"] or r["id"]} for r in ev],
            "members": [{"box": r["box"], "key": r["key"], "cp": rank[r["checkpoint"]], "id": r["id"]} for r in me],
            "deps": [[r["dependent_id"], r["dependency_id"]] for r in rows(
                d, "select dependent_id, dependency_id from dependency where trial_id=?", tid)]}
