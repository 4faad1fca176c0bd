---------------------------- MODULE StoreTrace ----------------------------
(* Recorded histories of real commands against Store: every command is executed in the      *)
(* specification and the whole observed state (files, trials, heads) is compared with it.    *)
EXTENDS Store
Traces == JsonDeserialize(IOEnv.TRACES)
ProgsFile == JsonDeserialize(IOEnv.PROGS)

VARIABLES tr, l
tvars == <<files, trials, heads, tr, l>>

Steps == Traces[tr].steps

AsSet(s) == {s[i] : i \in DOMAIN s}
\* Sequences that are compared as sets must not hide repetitions
SameSet(a, b) == AsSet(a) = AsSet(b) /\ Len(a) = Len(b)

TrialDiff(i, e, o) ==
  LET G(name, ok) == IF ok THEN {} ELSE {<<name, i>>}
  IN UNION {G("script", e.script = o.script), G("cmd", e.cmd = o.cmd),
            G("status", e.status = o.status), G("parent", e.parent = o.parent),
            G("inh", e.inh = o.inh), G("code", e.code = o.code),
            G("mods", SameSet(e.mods, o.mods)),
            G("acc", IF e.status = "backup" THEN SameSet(e.acc, o.acc) ELSE e.acc = o.acc),
            G("calls", e.calls = o.calls), G("tag", e.tag = o.tag)}

Diff(o, fs, ts, hs) ==
  UNION {{<<"files", p>> : p \in {p \in Paths : fs[p] # o.files[p]}},
         {<<"heads", s>> : s \in {s \in Scripts : hs[s] # o.heads[s]}},
         IF Len(ts) # Len(o.trials) THEN {<<"count", Len(o.trials)>>} ELSE {},
         UNION {TrialDiff(i, ts[i], o.trials[i]) :
                i \in 1..(IF Len(ts) < Len(o.trials) THEN Len(ts) ELSE Len(o.trials))},
         IF o.crash # "" THEN {<<"crash", o.crash>>} ELSE {},
         {<<"extra", x>> : x \in AsSet(o.extra)},
         {<<"dangling", x>> : x \in AsSet(o.dangling)},
         {<<"closure", x>> : x \in AsSet(o.closure)}}

TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ files = [p \in Paths |-> Traces[tr].init[p]]
         /\ trials = <<>> /\ heads = [s \in Scripts |-> 0]

(* A run or a restore killed at some point: what was observed is taken over, provided it is   *)
(* one of the possible intermediate points                                                  *)
Old(o, ts) == {<<"damaged", i>> : i \in {i \in DOMAIN ts : i \notin DOMAIN o.trials \/ TrialDiff(i, ts[i], o.trials[i]) # {}}}
Grew(o, n) == IF Len(o.trials) \in {Len(trials), Len(trials) + n} THEN {} ELSE {<<"count", Len(o.trials)>>}
NewOf(o) == IF Len(o.trials) > Len(trials) THEN <<o.trials[Len(trials) + 1]>> ELSE <<>>
OtherHeads(o, s, ok) == {<<"heads", x>> : x \in {x \in Scripts : IF x = s THEN o.heads[x] \notin ok
                                                                ELSE o.heads[x] # heads[x]}}
F(name, ok) == IF ok THEN {} ELSE {<<name, Len(trials) + 1>>}

KillRunBad(c, o) ==
  LET tok == files[c.script]
      r == RunProgram(files, tok, c.ctx = "package", TRUE)
      new == NewOf(o)
      ended == r.out # "kill" /\ new # <<>> /\ new[1].status = Status(r.out)
  IN Old(o, trials) \cup Grew(o, 1)
     \cup OtherHeads(o, c.script, {heads[c.script], 0})
     \cup IF new = <<>> THEN {}
          ELSE LET t == new[1] IN
            UNION {F("script", t.script = c.script), F("cmd", t.cmd = RunCmd(c)),
                   F("status", t.status \in {"ongoing", Status(r.out)}),
                   F("parent", t.parent = ParentFor(c.script)), F("inh", t.inh = 0),
                   F("heads", o.heads[c.script] = 0),
                   \* Everything is stored before the run counts as over
                   IF ended THEN UNION {F("code", t.code = tok), F("mods", SameSet(t.mods, r.mods)),
                                        F("acc", t.acc = r.acc), F("calls", t.calls = r.calls),
                                        F("tag", t.tag \in {<<>>, NextTag(tok, RunCmd(c))}),
                                        F("files", \A p \in Paths : o.files[p] = r.files[p])}
                   ELSE UNION {F("code", t.code \in {"?", tok}), F("tag", t.tag = <<>>),
                               F("mods", {t.mods[j].n : j \in DOMAIN t.mods} \subseteq
                                              {r.mods[j].n : j \in DOMAIN r.mods})}}

\* Until the first byte is written over a file, its content is somewhere in the store
KillRestoreBad(c, o) ==
  LET i == c.t
      sk == [s |-> c.ss, l |-> c.sl, a |-> c.sa]
      want == Versioned(i, sk)
      new == NewOf(o)
  IN Old(o, trials) \cup Grew(o, IF Changed(i, sk) THEN 1 ELSE 0)
     \cup OtherHeads(o, trials[i].script, 
            \* Recording the backup makes it the version the workspace is based on
            {heads[trials[i].script], i} \cup (IF new = <<>> THEN {} ELSE {0}))
     \cup {<<"files", p>> : p \in {p \in Paths :
             o.files[p] \notin {files[p]} \cup (IF p \in DOMAIN want THEN {want[p].c, "e"} ELSE {})}}
     \cup {<<"lost", p>> : p \in {p \in Paths : o.files[p] # files[p] /\ files[p] # NONE
                                                /\ ~Recoverable(o.trials, p, files[p])}}
     \cup IF new = <<>> THEN {}
          ELSE LET t == new[1] IN
            UNION {F("script", t.script = trials[i].script),
                   F("status", t.status \in {"ongoing", "backup"}),
                   F("parent", t.parent = HeadFor(trials[i].script)),
                   F("tag", t.tag \in {<<>>, BackupTag})}

Killed(c) == c.cmd \in {"runk", "restorek"}
KillBad(c, o) == IF o.crash # "" THEN {<<"crash", o.crash>>} ELSE
  (IF c.cmd = "runk" THEN KillRunBad(c, o) ELSE KillRestoreBad(c, o))
  \cup {<<"dangling", x>> : x \in AsSet(o.dangling)}
  \cup {<<"closure", x>> : x \in AsSet(o.closure)}
Adopt(o) == /\ files' = [p \in Paths |-> o.files[p]]
            /\ trials' = o.trials
            /\ heads' = [s \in Scripts |-> o.heads[s]]

\* A defect in an earlier step may make the command meaningless for the expected state: the
\* trace is then left at that point (the earlier mismatch was already reported)
Possible(c) == CASE c.cmd \in {"restore", "restorek"} -> c.t \in DOMAIN trials /\ Recorded(c.t)
                 [] c.cmd = "rfile" -> trials # <<>> /\ c.t \in 0..Len(trials)
                 [] OTHER -> TRUE

TNext ==
  /\ l <= Len(Steps)
  /\ LET s == Steps[l] IN
     IF ~Possible(s.c) THEN l' = Len(Steps) + 1 /\ UNCHANGED vars
     ELSE IF Killed(s.c) /\ ~(s.c.cmd = "runk" /\ files[s.c.script] = NONE)
     THEN /\ Adopt(s.o)
          /\ l' = IF KillBad(s.c, s.o) = {} THEN l + 1 ELSE Len(Steps) + 1
          /\ LET d == KillBad(s.c, s.o) IN
             d # {} => PrintT("!!" \o ToJson([tr |-> tr, l |-> l, bad |-> d,
                          exp |-> [files |-> files, heads |-> heads, trials |-> trials]]))
     ELSE IF Killed(s.c) THEN l' = l + 1 /\ UNCHANGED vars
     ELSE /\ Do(s.c)
          /\ l' = l + 1
          /\ LET d == Diff(s.o, files', trials', heads') IN
             d # {} => PrintT("!!" \o ToJson([tr |-> tr, l |-> l, bad |-> d, exp |-> [files |-> files', heads |-> heads', trials |-> trials']]))
  /\ (l' > Len(Steps) => PrintT("##" \o ToJson([tr |-> tr])))
  /\ UNCHANGED tr

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
