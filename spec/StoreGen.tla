----------------------------- MODULE StoreGen -----------------------------
(* Behaviours of Store to be replayed into the real commands: one weighted choice of the     *)
(* kind of command, then any command of that kind.                                           *)
EXTENDS Store
ProgsFile == JsonDeserialize(IOEnv.PROGS)
\* Profile: Kinds (sequence with repetitions as weights), ScriptToks, ModToks, Len
Prof == JsonDeserialize(IOEnv.PROFILE)
Rng(s) == {s[i] : i \in DOMAIN s}

VARIABLES hist, kind, init
gvars == <<files, trials, heads, hist, kind, init>>

DataToks == {"v1", "v2", "v3", "v4", "v5", "e"}
Ats == {1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 90, 93, 96, 98, 99}
Short(tok) == Len(tok) <= 45

GInit == /\ trials = <<>> /\ heads = [s \in Scripts |-> 0]
         /\ \E k \in DOMAIN Prof.scripts, x \in 0..3 :
              LET M == Len(Prof.mods)
                  Pick(S, n) == S[(n % Len(S)) + 1]
              IN files = [InitFiles EXCEPT
                     !["s1.py"] = Prof.scripts[k], !["s2.py"] = Pick(Prof.scripts, 7 * k + 3 + x),
                     !["m1.py"] = IF M = 0 \/ x = 3 THEN NONE ELSE Pick(Prof.mods, 5 * k + x),
                     !["pk/m2.py"] = IF M = 0 THEN NONE ELSE Pick(Prof.mods, 3 * k + 2 * x + 1),
                     !["d1.txt"] = "v1"]
         /\ init = files /\ hist = <<>> /\ kind = 0

Idx == {i \in DOMAIN trials : Recorded(i)}
Contents == {c \in UNION {Rng(Moments(i, p)) : i \in Idx, p \in Paths} : c \notin {NONE, "?", "e"}}

Cmds(k) ==
  CASE k = "edits" -> {[cmd |-> "edit", path |-> p, v |-> v] : p \in Scripts, v \in Rng(Prof.scripts)}
    [] k = "editm" -> {[cmd |-> "edit", path |-> p, v |-> v] : p \in ModPaths, v \in Rng(Prof.mods)}
    [] k = "editd" -> {[cmd |-> "edit", path |-> p, v |-> v] : p \in DataPaths, v \in DataToks}
    [] k = "del" -> {[cmd |-> "edit", path |-> p, v |-> NONE] :
                     p \in {q \in Paths \ {"pk/__init__.py"} : files[q] # NONE}}
    [] k = "run" -> {[cmd |-> "run", script |-> s, args |-> a, byp |-> FALSE, ctx |-> "main"] :
                     s \in {q \in Scripts : files[q] # NONE}, a \in {"", "a"}}
    [] k = "run1" -> {[cmd |-> "run", script |-> "s1.py", args |-> "", byp |-> FALSE, ctx |-> "main"]}
    [] k = "edit1" -> {[cmd |-> "edit", path |-> "s1.py", v |-> v] : v \in Rng(Prof.scripts)}
    [] k = "runx" -> {[cmd |-> "run", script |-> s, args |-> "", byp |-> FALSE, ctx |-> "package"] :
                      s \in {q \in Scripts : files[q] # NONE}}
    [] k = "runb" -> {[cmd |-> "run", script |-> s, args |-> "", byp |-> TRUE, ctx |-> x] :
                      s \in {q \in Scripts : files[q] # NONE}, x \in {"main", "package"}}
    [] k = "restore" -> {[cmd |-> "restore", t |-> i, ss |-> FALSE, sl |-> FALSE, sa |-> FALSE] : i \in Idx}
    [] k = "restores" -> {[cmd |-> "restore", t |-> i, ss |-> a, sl |-> b, sa |-> c] :
                          i \in Idx, a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
    [] k = "rfile" -> {[cmd |-> "rfile", t |-> i, path |-> p, by |-> "num", n |-> n, v |-> "", target |-> g] :
                       i \in Idx, p \in Paths, n \in 1..5, g \in {"d3", "same"}}
    [] k = "rhash" -> {[cmd |-> "rfile", t |-> i, path |-> p, by |-> "hash", n |-> 0, v |-> v, target |-> "same"] :
                       i \in Idx, p \in {"d1.txt"}, v \in Contents}
                      \cup {[cmd |-> "rfile", t |-> i, path |-> "m1.py", by |-> "hash", n |-> 0, v |-> v, target |-> "same"] :
                       i \in Idx, v \in Contents \cap DOMAIN Progs}
    [] k = "rtime" -> UNION {{[cmd |-> "rfile", t |-> i, path |-> trials[i].acc[n].n, by |-> b, n |-> n,
                               v |-> "", target |-> g] :
                              n \in {n \in DOMAIN trials[i].acc : trials[i].acc[n].n # trials[i].script},
                              b \in {"before", "after"}, g \in {"d3", "same"}} :
                             i \in {i \in Idx : trials[i].status # "backup"}}
    [] k = "runk" -> {[cmd |-> "runk", script |-> s, args |-> "", byp |-> FALSE, ctx |-> x, at |-> a] :
                      s \in {q \in Scripts : files[q] # NONE}, x \in {"main", "package"}, a \in Ats}
    [] k = "restorek" -> {[cmd |-> "restorek", t |-> i, ss |-> FALSE, sl |-> FALSE, sa |-> FALSE, at |-> a] :
                          i \in Idx, a \in Ats}
    [] k = "look" -> {[cmd |-> "look", what |-> w] : w \in {"list", "show", "history", "gc"}}

\* Killing is generated as if nothing was done; the trace specification follows what happened
GDo(c) == IF c.cmd \in {"runk", "restorek"} THEN UNCHANGED vars ELSE Do(c)

Fix(c) == IF c.cmd # "rfile" THEN c
          ELSE [c EXCEPT !.target = IF c.target = "same" THEN c.path ELSE "sub/d3.txt"]
\* Requests for a moment that exists are favoured
Useful(c) == CASE c.cmd = "rfile" /\ c.by = "num" -> c.n <= Len(Moments(c.t, c.path)) + (IF c.n = 1 THEN 1 ELSE 0)
               [] OTHER -> TRUE

GNext == IF Len(hist) = Prof.len
         THEN kind = 0 /\ kind' = -1 /\ UNCHANGED <<files, trials, heads, hist, init>>
         ELSE IF kind = 0
         THEN /\ kind' \in {k \in DOMAIN Prof.kinds : \E c \in Cmds(Prof.kinds[k]) : Useful(c)}
              /\ UNCHANGED <<files, trials, heads, hist, init>>
         ELSE /\ \E c \in {Fix(c) : c \in {c \in Cmds(Prof.kinds[kind]) : Useful(c)}} :
                    /\ GDo(c) /\ hist' = Append(hist, c)
              /\ kind' = 0 /\ UNCHANGED init
GSpec == GInit /\ [][GNext]_gvars
Bounded == \A p \in Paths : Short(files[p])
Emit == kind = -1 => PrintT("@@" \o ToJson([init |-> init, cmds |-> hist]))
Inv == TypeOK /\ AncestryOK /\ HeadOK /\ TagsUnique /\ TagsMeanCode /\ InheritOK
=============================================================================
