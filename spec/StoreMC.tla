------------------------------ MODULE StoreMC ------------------------------
(* Exhaustive exploration of Store within small constants: every history of at most MaxCmd   *)
(* commands over a few programs, edits and data contents.                                    *)
EXTENDS Store
ProgsFile == JsonDeserialize(IOEnv.PROGS)
Cfg == JsonDeserialize(IOEnv.PROFILE)
Rng(s) == {s[i] : i \in DOMAIN s}
VARIABLES n
mvars == <<files, trials, heads, n>>

MInit == /\ trials = <<>> /\ heads = [s \in Scripts |-> 0] /\ n = 0
         /\ files = [InitFiles EXCEPT !["s1.py"] = Cfg.s1[1], !["s2.py"] = Cfg.s2[1],
                                      !["m1.py"] = Cfg.mods[1], !["d1.txt"] = Cfg.data[1]]
Idx == {i \in DOMAIN trials : Recorded(i)}

MEdit == \/ \E v \in Rng(Cfg.s1) : files["s1.py"] # v /\ Do([cmd |-> "edit", path |-> "s1.py", v |-> v])
         \/ \E v \in Rng(Cfg.s2) : files["s2.py"] # v /\ Do([cmd |-> "edit", path |-> "s2.py", v |-> v])
         \/ \E v \in Rng(Cfg.mods) : files["m1.py"] # v /\ Do([cmd |-> "edit", path |-> "m1.py", v |-> v])
         \/ \E v \in Rng(Cfg.data) : files["d1.txt"] # v /\ Do([cmd |-> "edit", path |-> "d1.txt", v |-> v])
MRun == \E s \in Scripts, a \in Rng(Cfg.args), b \in BOOLEAN, x \in Rng(Cfg.ctxs) :
           files[s] # NONE /\ (b => Donor # 0)
           /\ Do([cmd |-> "run", script |-> s, args |-> a, byp |-> b, ctx |-> x])
MRestore == \E i \in Idx, sk \in (IF Cfg.skips THEN BOOLEAN \X BOOLEAN \X BOOLEAN ELSE {<<FALSE, FALSE, FALSE>>}) :
           Do([cmd |-> "restore", t |-> i, ss |-> sk[1], sl |-> sk[2], sa |-> sk[3]])
MFile == \E i \in Idx, p \in Paths, k \in 1..3 : k \in DOMAIN Moments(i, p)
           /\ Do([cmd |-> "rfile", t |-> i, path |-> p, by |-> "num", n |-> k, v |-> "", target |-> p])
MNext == n < Cfg.max /\ n' = n + 1 /\ (MEdit \/ MRun \/ MRestore \/ (Cfg.files /\ MFile))
MSpec == MInit /\ [][MNext]_mvars
Short == \A p \in Paths : Len(files[p]) <= 12

Inv == TypeOK /\ AncestryOK /\ HeadOK /\ TagsUnique /\ TagsMeanCode /\ InheritOK

(* N13: restoring a trial twice is restoring it once; the script is the recorded one *)
RestoredFiles(fs, i, sk) == LET w == Versioned(i, sk) IN [p \in Paths |-> IF p \in DOMAIN w THEN w[p].c ELSE fs[p]]
RestoreFixed == \A i \in Idx :
   LET g == RestoredFiles(files, i, NoSkip)
   IN RestoredFiles(g, i, NoSkip) = g /\ g[trials[i].script] = trials[i].code
(* N14: no restore loses a content. A step that adds a backup or sets a head is a restore *)
IsRestore == (\E s \in Scripts : heads'[s] # heads[s] /\ heads'[s] # 0)
             \/ (Len(trials') > Len(trials) /\ trials'[Len(trials')].status = "backup")
NothingLost == [][IsRestore => \A p \in Paths : files'[p] # files[p] /\ files[p] # NONE
                                 => Recoverable(trials', p, files[p])]_mvars
BackupHasWork == \A i \in DOMAIN trials : trials[i].status = "backup" => trials[i].code # "?"
Consumed == [][\A i \in DOMAIN trials' : i \notin DOMAIN trials /\ trials'[i].status # "backup"
                 => heads'[trials'[i].script] = 0]_mvars
MAppend == [][/\ Len(trials') \in {Len(trials), Len(trials) + 1}
              /\ \A i \in DOMAIN trials : trials'[i] = trials[i]]_mvars
OthersUntouched == [][\A s \in Scripts : heads'[s] # heads[s] =>
                        \A r \in Scripts \ {s} : heads'[r] = heads[r]]_mvars
=============================================================================
