"""Write known_findings.jsonl: the fix commits of /repo (fixed) and tools/known.json (known)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ("exit with no status", "N02"), ("garbage collection accepts", "N09"), ("exchange code component", "N17"),
 ("exchange contents between", "N17"), ("find content by partial", "N09"), ("store content atomically", "N10"),
 ("every way of opening", "N06"), ("after the function that opened", "N06"), ("serve scripts, files", "N23"),
 ("answer experiment routes", "N18"), ("sibling directories", "N13"), ("backups keep", "N14"),
 ("restore a file of a trial", "N15"), ("back up the script", "N14"), ("count only the accesses", "N15"),
 ("without dict or length", "N01"), ("context managers without", "N01"), ("accesses of captured modules", "N06"),
 ("do not execute modules", "N14"), ("byte by byte", "N08"), ("one access per codecs", "N06"),
 ("history of a store without", "N20"), ("mode of files opened", "N06"), ("complete a provenance database", "N02"),
 ("read contents back as bytes", "N09"), ("run at exit", "N01"), ("git has no identity", "N09"),
 ("content repositories atomically", "N10"), ("whose storage was interrupted", "N10"), ("not committed", "N09"),
 ("whatever the name", "N09"), ("after collecting garbage", "N09"), ("while others create", "N10")]
extra = os.path.join(V, "tools", "fixprops.json")
if os.path.exists(extra):
    PROP += [tuple(x) for x in json.load(open(extra))]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "e5e16b1..HEAD"],
                     capture_output=True, text=True).stdout.strip().splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    ps = [p for k, p in PROP if k in s]
    assert ps, line
    out.append({"property": ps[0], "status": "fixed", "commit": h,
                "what": "fixed: property=%s %s %s" % (ps[0], h, s[5:])})
known = os.path.join(V, "tools", "known.json")
if os.path.exists(known):
    out += json.load(open(known))
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
