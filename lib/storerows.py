"""The keys and references of every row of a store, for spec/Closure.tla."""
import os
from storedrv import q, read_contents

TABLES = ["activation", "argument", "code_block", "code_component", "composition", "dependency",
          "environment_attr", "evaluation", "file_access", "member", "module"]


def z(x):
    """NULL is the absent reference; ids are kept as integers"""
    return 0 if x is None else int(x)


def rows(d, engine, check_content=True):
    db = os.path.join(d, ".noworkflow", "db.sqlite")
    res = {"trials": [], "heads": [], "tags": [], "orphans": []}
    if not os.path.exists(db):
        return res
    ts = q(db, "select * from trial order by sequence_key, id")
    idx = {t["id"]: n + 1 for n, t in enumerate(ts)}

    def ref(x):
        return 0 if x is None else idx.get(x, -1)

    def of(table, tid, *cols, **kw):
        return [[z(r[c]) for c in cols] for r in
                q(db, "select %s from %s where trial_id=?%s order by id" % (",".join(cols), table, kw.get("where", "")), tid)]
    hashes = {}
    for table in TABLES:
        for r in q(db, "select distinct trial_id from %s" % table):
            if r["trial_id"] not in idx:
                res["orphans"].append("%s %s" % (table, r["trial_id"]))
    for t in ts:
        tid = t["id"]
        hashes[tid] = [r["code_hash"] for r in q(db, "select distinct code_hash from code_block where trial_id=?", tid)]
        for r in q(db, "select content_hash_before b, content_hash_after a from file_access where trial_id=?", tid):
            hashes[tid] += [r["a"], r["b"]]
    got = read_contents(d, engine, sum(hashes.values(), [])) if check_content else None
    for t in ts:
        tid = t["id"]
        res["trials"].append({
            "whole": t["status"] in ("finished", "unfinished", "backup"),
            "ran": t["status"] != "backup", "parent": ref(t["parent_id"]),
            "inh": ref(t["modules_inherited_from_trial_id"]), "main": z(t["main_id"]),
            "cc": of("code_component", tid, "id", "container_id"),
            "cb": [x[0] for x in of("code_block", tid, "id")],
            "ev": of("evaluation", tid, "activation_id", "id", "code_component_id"),
            "act": of("activation", tid, "id", "code_block_id"),
            "dep": of("dependency", tid, "dependent_activation_id", "dependent_id",
                      "dependency_activation_id", "dependency_id", "collection_activation_id", "collection_id"),
            "mem": of("member", tid, "collection_activation_id", "collection_id",
                      "member_activation_id", "member_id"),
            "fa": [x[0] for x in of("file_access", tid, "activation_id")],
            "mod": [x[0] for x in of("module", tid, "code_block_id")],
            "comp": of("composition", tid, "part_id", "whole_id"),
            "unreadable": sorted(set(h for h in hashes[tid] if h and got.get(h) is None)) if check_content else []})
    res["heads"] = [ref(r["trial_id"]) for r in q(db, "select trial_id from head")]
    res["tags"] = [ref(r["trial_id"]) for r in q(db, "select trial_id from tag")]
    return res
