"""Write MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python checks/run.py "
STORE = ("TLA+ specification spec/Store.tla checked exhaustively by TLC; behaviours generated by TLC "
         "replayed as real `now` commands and the recorded stores validated by TLC (StoreTrace.tla, Closure.tla)")
STORE_NOTE = ("Exhaustive within the bounds of StoreMC.tla for the specification; the code is bound to it by "
              "replaying TLC-generated behaviours and validating every recorded step, so histories longer or "
              "programs richer than the generated ones are sampled, not enumerated.")
CLAIMS = {p: (STORE, STORE_NOTE) for p in "N02 N06 N11 N12 N13 N14 N15 N16 N24".split()}
CONTENT = ("TLA+ specifications spec/Content.tla and ContentPar.tla checked by TLC; TLC-generated histories run "
           "on the real engines under a scheduler and crash injector, recorded traces validated by TLC")
CONTENT_NOTE = ("ContentPar is exhaustive for 2-3 workers and 3-4 puts; on the code, schedules and crash points are those "
                "of calls that change files (an LD_PRELOAD shim), explored breadth first up to a budget and sampled beyond.")
for p in ("N09", "N10"):
    CLAIMS[p] = (CONTENT, CONTENT_NOTE)
PYCORE = ("TLA+ specification spec/PyCore.tla (a machine that executes programs and their provenance), run by TLC on "
          "generated programs; what the real collector recorded for them is validated by TLC (PyCoreTrace.tla)")
PYCORE_NOTE = ("The machine is complete for the core language of PyCore.tla; programs are generated at random from it, so the "
               "space of programs is sampled. The machine itself is checked against the plain interpreter on every program.")
for p in ("N03", "N04", "N05", "N07"):
    CLAIMS[p] = (PYCORE, PYCORE_NOTE)
CLAIMS["N01"] = (PYCORE + "; constructs outside of the core run plainly and captured, both traces compared by TLC (PyObs.tla)",
                 PYCORE_NOTE + " Outside of the core language, a corpus of scripts with every construct is run in several contexts.")
VIEWS = ("TLA+ specification spec/Views.tla (every view as a function of the rows of the store); random stores and "
         "requests to long-lived and fresh viewers, every answer validated by TLC")
VIEWS_NOTE = ("Stores are real recordings altered row by row, requests are made to viewers that stay open while the store changes; "
              "the spaces of stores and of requests are sampled.")
for p in "N19 N20 N21 N22 N25".split():
    CLAIMS[p] = (VIEWS, VIEWS_NOTE)
extra = os.path.join(V, "tools", "claims.json")
if os.path.exists(extra):
    for p, (t, n) in json.load(open(extra)).items():
        CLAIMS[p] = (t, n)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": PY + i, "thorough_cmd": PY + i + " --thorough",
                            "evidence_file": "evidence/%s.json" % i, "technique": CLAIMS[i][0],
                            "level": "model_checking", "level_note": CLAIMS[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "The specification does not cover this property yet."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
