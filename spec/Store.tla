------------------------------- MODULE Store -------------------------------
(* The provenance store of one project directory: its files, the trials recorded for its   *)
(* scripts, the restored version pending for each script (head), automatic version tags,   *)
(* recorded modules and file accesses; and the commands that change them: editing, running *)
(* (with every way of ending a run), restoring a trial, restoring one file.                *)
(*                                                                                         *)
(* File contents are tokens. What running a program does is given by Progs[token], a       *)
(* sequence of operations, executed here by RunOps with Python's semantics and the capture *)
(* rules of the tool.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions

CONSTANT Progs            \* token -> Seq of operations

NONE == "-"
Paths == {"s1.py", "s2.py", "m1.py", "pk/__init__.py", "pk/m2.py",
          "d1.txt", "d2.txt", "sub/d3.txt"}
Scripts == {"s1.py", "s2.py"}
ModPaths == {"m1.py", "pk/m2.py"}
DataPaths == {"d1.txt", "d2.txt", "sub/d3.txt"}
ModPath(m) == CASE m = "m1" -> "m1.py" [] m = "pk" -> "pk/__init__.py" [] m = "pk.m2" -> "pk/m2.py"

VARIABLES files,   \* path -> token, NONE when absent
          trials,  \* Seq of records, in order of creation
          heads    \* script -> index of the restored trial, 0 when none
vars == <<files, trials, heads>>

(******************************** running a program ***************************************)
\* Appending concatenates
Cat(old, v) == IF old \in {NONE, "e"} THEN v ELSE old \o "." \o v

Ends == [raise |-> "raise", exit0 |-> "exit0", exitNone |-> "exit0", exitplain |-> "exit0",
         exitFalse |-> "exit0", kill |-> "kill", kbd |-> "kill"]
\* sys.exit(0.0): the tool takes any status equal to 0 as success; the interpreter would print it
EndOf(h) == IF h \in DOMAIN Ends THEN Ends[h] ELSE IF h = "exit0.0" THEN "exit0" ELSE "exit1"

\* Execution state: files, accesses, number of frames so far, modules, loaded names, calls,
\* outcome
InitExec(fs) == [files |-> fs, acc |-> <<>>, mods |-> <<>>, loaded |-> {}, calls |-> <<>>,
                 next |-> 2, out |-> "ok"]

\* The frame that opened a file ends: the content the file has now is recorded
CloseFrame(st, fr) ==
  [st EXCEPT !.acc = [i \in DOMAIN st.acc |->
      IF st.acc[i].own = fr /\ st.acc[i].a = "pending"
      THEN [st.acc[i] EXCEPT !.a = st.files[st.acc[i].n]] ELSE st.acc[i]]]

\* A new content over the start of the old one (r+): only whole replacement is modelled
Open(st, o, fr, cap) ==
  LET before == st.files[o.f]
      st1 == IF cap THEN [st EXCEPT !.acc = Append(@, [n |-> o.f, m |-> o.m, b |-> before,
                                                     a |-> "pending", own |-> fr])]
             ELSE st
      \* Opened by a library function: the access ends with it, before anything is written
      Blank == IF before = NONE /\ o.m \in {"wb", "w", "ab", "a", "xb", "x", "wb+", "a+b"} THEN "e"
               ELSE IF o.m \in {"wb", "w", "wb+"} THEN "e" ELSE before
      Ends1(s) == IF o.how = "path" /\ cap
                  THEN [s EXCEPT !.acc[Len(s.acc)].a = Blank] ELSE s
      Set(v) == [Ends1(st1) EXCEPT !.files[o.f] = v]
  IN CASE o.m \in {"rb", "r", ""} -> IF before = NONE THEN [Ends1(st1) EXCEPT !.out = "raise"] ELSE Ends1(st1)
       [] o.m \in {"wb", "wb+", "w"} -> Set(IF o.v = "" THEN "e" ELSE o.v)
       [] o.m \in {"ab", "a+b", "a"} -> Set(Cat(before, o.v))
       [] o.m \in {"xb", "x"} -> IF before = NONE THEN Set(IF o.v = "" THEN "e" ELSE o.v)
                                 ELSE [Ends1(st1) EXCEPT !.out = "raise"]
       [] o.m = "r+b" -> IF before = NONE THEN [Ends1(st1) EXCEPT !.out = "raise"]
                         ELSE IF o.v = "" THEN Ends1(st1)      \* opened for update, only read
                         ELSE Set(Cat(before, o.v))     \* after seeking to the end

RECURSIVE RunOps(_, _, _, _, _, _), Import(_, _, _, _)

\* Import the modules of ms in turn; pkg: context covers local modules
Import(st, ms, pkg, rec) ==
  IF ms = <<>> \/ st.out # "ok" THEN st
  ELSE LET m == Head(ms)
           p == ModPath(m)
           tok == st.files[p]
       IN IF m \in st.loaded THEN Import(st, Tail(ms), pkg, rec)
          ELSE IF tok = NONE THEN [st EXCEPT !.out = "raise"]
          ELSE LET fr == st.next
                   st1 == [st EXCEPT !.loaded = @ \cup {m}, !.next = @ + 1]
                   st2 == RunOps(st1, Progs[tok], fr, pkg, tok, [pkg |-> pkg, rec |-> rec])
                   \* the module ends, normally or not
                   stc == IF pkg THEN CloseFrame(st2, fr) ELSE st2
                   st3 == IF st2.out = "ok"
                          THEN [stc EXCEPT
                                 !.mods = IF rec \/ pkg
                                          THEN Append(@, [n |-> m, c |-> tok, t |-> pkg]) ELSE @]
                          ELSE [stc EXCEPT !.loaded = @ \ {m}]
               IN Import(st3, Tail(ms), pkg, rec)

RunOps(st, ops, fr, cap, tok, cx) ==
  IF ops = <<>> \/ st.out # "ok" THEN st
  ELSE LET o == Head(ops)
           fn == o.lvl = 1 \/ o.k = "call"     \* done inside a function of the program
           infn == fn /\ cap
           st0 == IF infn THEN [st EXCEPT !.calls = Append(@, tok), !.next = @ + 1] ELSE st
           ffr == IF infn THEN st.next ELSE fr
           st1 == CASE o.k = "open" -> Open(st0, o, ffr, cap)
                    [] o.k = "rm" -> [st0 EXCEPT !.files[o.f] = NONE]
                    [] o.k = "imp" -> Import(st0, o.ms, cx.pkg, cx.rec)
                    [] o.k = "call" -> RunOps(st0, o.body, ffr, cap, tok, cx)
                    [] o.k = "end" -> [st0 EXCEPT !.out = EndOf(o.how)]
           \* A function ends (normally or not): its accesses are complete
           st2 == IF infn /\ st1.out # "kill" THEN CloseFrame(st1, ffr) ELSE st1
           st3 == IF o.try /\ st2.out = "raise" THEN [st2 EXCEPT !.out = "ok"] ELSE st2
       IN RunOps(st3, Tail(ops), fr, cap, tok, cx)

\* What one run does: final files, recorded accesses / modules / calls, outcome
RunProgram(fs, tok, pkg, rec) ==
  LET r == RunOps(InitExec(fs), Progs[tok], 1, TRUE, tok, [pkg |-> pkg, rec |-> rec])
      r1 == CloseFrame(r, 1)
  IN [r1 EXCEPT !.acc = [i \in DOMAIN r1.acc |->
        [n |-> r1.acc[i].n, m |-> r1.acc[i].m, b |-> r1.acc[i].b, a |-> r1.acc[i].a]]]

(************************************* versions *******************************************)
LastOf(ts, P(_)) == LET S == {i \in DOMAIN ts : P(ts[i])} IN
                    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

ParentFor(s) == IF heads[s] # 0 THEN heads[s] ELSE LastOf(trials, LAMBDA t : t.script = s)

Tagged == {i \in DOMAIN trials : trials[i].tag # <<>>}
TLt(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
             \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
MaxTag(S) == LET i == CHOOSE i \in S : \A j \in S : trials[j].tag = trials[i].tag
                                                     \/ TLt(trials[j].tag, trials[i].tag)
             IN trials[i].tag
NextTag(code, cmd) ==
  LET same == {i \in Tagged : trials[i].code = code}
      both == {i \in same : trials[i].cmd = cmd}
  IN IF Tagged = {} THEN <<1, 1, 1>>
     ELSE IF both # {} THEN LET t == MaxTag(both) IN <<t[1], t[2], t[3] + 1>>
     ELSE IF same # {} THEN LET t == MaxTag(same) IN <<t[1], t[2] + 1, 1>>
     ELSE LET t == MaxTag(Tagged) IN <<t[1] + 1, 1, 1>>
BackupTag == IF Tagged = {} THEN <<1, 1, 1>> ELSE <<MaxTag(Tagged)[1] + 1, 0, 0>>

Donor == LastOf(trials, LAMBDA t : t.inh = 0 /\ t.status # "backup")

\* Commands are compared as text; the same text is the same command
RunCmd(c) == "run " \o c.script \o " " \o c.args \o " " \o c.ctx \o (IF c.byp THEN " b" ELSE "")

Status(out) == CASE out \in {"ok", "exit0"} -> "finished"
                 [] out \in {"raise", "exit1"} -> "unfinished"
                 [] out = "kill" -> "ongoing"

NewTrial(s, cmd, status, parent, inh, code, mods, acc, calls, tag) ==
  [script |-> s, cmd |-> cmd, status |-> status, parent |-> parent, inh |-> inh, code |-> code,
   mods |-> mods, acc |-> acc, calls |-> calls, tag |-> tag]

Run(c) ==
  LET tok == files[c.script]
      pkg == c.ctx = "package"
      donor == IF c.byp THEN Donor ELSE 0
      r == RunProgram(files, tok, pkg, ~c.byp)
      killed == r.out = "kill"
  IN IF tok = NONE \/ (c.byp /\ donor = 0)
     THEN UNCHANGED vars        \* refused
     ELSE /\ files' = r.files
          /\ heads' = [heads EXCEPT ![c.script] = 0]
          /\ trials' = Append(trials,
               IF killed
               THEN NewTrial(c.script, RunCmd(c), "ongoing", ParentFor(c.script), donor, "?",
                             <<>>, <<>>, <<>>, <<>>)
               ELSE NewTrial(c.script, RunCmd(c), Status(r.out), ParentFor(c.script), donor, tok,
                             r.mods, r.acc, r.calls, NextTag(tok, RunCmd(c))))

(************************************** restoring *****************************************)
Eff(i) == IF trials[i].inh = 0 THEN trials[i].mods ELSE trials[trials[i].inh].mods

\* The files recorded for trial i: path -> [c: content when first used, t: type]
FirstAcc(i, p) == LET S == {j \in DOMAIN trials[i].acc : trials[i].acc[j].n = p}
                  IN trials[i].acc[CHOOSE j \in S : \A k \in S : j <= k].b
AccPaths(i) == {trials[i].acc[j].n : j \in DOMAIN trials[i].acc} \ {trials[i].script}
ModPathsOf(i) == {ModPath(Eff(i)[j].n) : j \in DOMAIN Eff(i)}
ModContent(i, p) == LET S == {j \in DOMAIN Eff(i) : ModPath(Eff(i)[j].n) = p}
                    IN Eff(i)[CHOOSE j \in S : \A k \in S : k <= j].c
Versioned(i, sk) ==
  LET ps == (IF sk.s THEN {} ELSE {trials[i].script})
            \cup (IF sk.l THEN {} ELSE ModPathsOf(i) \ {trials[i].script})
            \cup (IF sk.a THEN {} ELSE AccPaths(i))
  IN [p \in ps |->
       IF p = trials[i].script THEN [c |-> trials[i].code, t |-> "script"]
       ELSE IF p \in AccPaths(i) /\ ~sk.a THEN [c |-> FirstAcc(i, p), t |-> "access"]
       ELSE [c |-> ModContent(i, p), t |-> "module"]]
NoSkip == [s |-> FALSE, l |-> FALSE, a |-> FALSE]

\* Content recorded for code that no longer exists
CodeOr(c) == IF c = NONE THEN "e" ELSE c

HeadFor(s) == ParentFor(s)

Changed(i, sk) ==
  LET want == Versioned(i, sk)
      have == Versioned(HeadFor(trials[i].script), sk)
  IN \/ \E p \in DOMAIN have : have[p].c # files[p]
     \/ \E p \in DOMAIN want \ DOMAIN have : files[p] # NONE /\ want[p].c # files[p]

\* The backup of a workspace about to be changed by restoring trial i
Backup(i, sk) ==
  LET s == trials[i].script
      h == HeadFor(s)
      want == Versioned(i, sk)
      have == Versioned(h, sk)
      all == Versioned(h, NoSkip)
      extra == {p \in DOMAIN want \ (DOMAIN all \cup DOMAIN have) : files[p] # NONE}
      type == [p \in DOMAIN all \cup DOMAIN have \cup extra |->
                 IF p \in DOMAIN have THEN have[p].t
                 ELSE IF p \in DOMAIN all THEN all[p].t ELSE want[p].t]
      modps == {p \in DOMAIN type : type[p] = "module"}
      accps == {p \in DOMAIN type : type[p] = "access"}
      ModName(p) == CHOOSE m \in {"m1", "pk", "pk.m2"} : ModPath(m) = p
  IN NewTrial(s, "restore", "backup", h, 0,
              CodeOr(files[s]),
              SetToSeq({[n |-> ModName(p), c |-> CodeOr(files[p]), t |-> FALSE] : p \in modps}),
              SetToSeq({[n |-> p, m |-> "a+", b |-> files[p], a |-> files[p]] : p \in accps}),
              <<>>, BackupTag)

Restore(c) ==
  LET i == c.t
      sk == [s |-> c.ss, l |-> c.sl, a |-> c.sa]
      want == Versioned(i, sk)
  IN /\ files' = [p \in Paths |-> IF p \in DOMAIN want THEN want[p].c ELSE files[p]]
     /\ trials' = IF Changed(i, sk) THEN Append(trials, Backup(i, sk)) ELSE trials
     /\ heads' = [heads EXCEPT ![trials[i].script] = i]

(*********************************** restoring one file ***********************************)
\* Successive recorded contents of path p in trial i: script, modules, accesses before/after
Moments(i, p) ==
  LET RECURSIVE A(_)
      A(j) == IF j > Len(trials[i].acc) THEN <<>>
              ELSE (IF trials[i].acc[j].n = p
                    THEN <<trials[i].acc[j].b, trials[i].acc[j].a>> ELSE <<>>) \o A(j + 1)
      RECURSIVE M(_)
      M(j) == IF j > Len(Eff(i)) THEN <<>>
              ELSE (IF ModPath(Eff(i)[j].n) = p THEN <<Eff(i)[j].c>> ELSE <<>>) \o M(j + 1)
  IN (IF trials[i].script = p THEN <<trials[i].code>> ELSE <<>>) \o M(1) \o A(1)

RestoreFile(c) ==
  LET i == IF c.t = 0 THEN Len(trials) ELSE c.t
      ms == Moments(i, c.path)
      found == CASE c.by = "num" -> c.n \in DOMAIN ms
                 [] c.by = "hash" -> TRUE
                 [] c.by \in {"before", "after"} -> c.n \in DOMAIN trials[i].acc
      content == CASE c.by = "num" -> ms[c.n]
                   [] c.by = "hash" -> c.v
                   [] c.by = "before" -> trials[i].acc[c.n].b
                   [] c.by = "after" -> trials[i].acc[c.n].a
  IN /\ files' = IF found THEN [files EXCEPT ![c.target] = content] ELSE files
     /\ UNCHANGED <<trials, heads>>

Edit(c) == /\ files' = [files EXCEPT ![c.path] = c.v]
           /\ UNCHANGED <<trials, heads>>

\* Commands that only read
Look(c) == UNCHANGED vars

Do(c) == CASE c.cmd = "edit" -> Edit(c)
           [] c.cmd = "run" -> Run(c)
           [] c.cmd = "restore" -> Restore(c)
           [] c.cmd = "rfile" -> RestoreFile(c)
           [] c.cmd = "look" -> Look(c)

InitFiles == [p \in Paths |-> IF p = "pk/__init__.py" THEN "e" ELSE NONE]
Init == files = InitFiles /\ trials = <<>> /\ heads = [s \in Scripts |-> 0]

(************************************* properties *****************************************)
Recorded(i) == trials[i].code # "?"

TypeOK == /\ DOMAIN files = Paths
          /\ \A s \in Scripts : heads[s] \in 0..Len(trials)
          /\ \A i \in DOMAIN trials : trials[i].status \in {"finished", "unfinished", "ongoing", "backup"}
\* N11
AncestryOK == \A i \in DOMAIN trials :
   /\ trials[i].parent < i
   /\ trials[i].parent # 0 => trials[trials[i].parent].script = trials[i].script
   /\ trials[i].parent = 0 => \A j \in 1..(i-1) : trials[j].script # trials[i].script
HeadOK == \A s \in Scripts : heads[s] # 0 => trials[heads[s]].script = s
\* N12
TagsUnique == \A i, j \in DOMAIN trials : i # j /\ trials[i].tag # <<>> => trials[i].tag # trials[j].tag
TagsMeanCode == \A i, j \in Tagged :
   trials[i].tag[1] = trials[j].tag[1] => trials[i].code = trials[j].code
\* N16
InheritOK == \A i \in DOMAIN trials : trials[i].inh # 0 =>
   /\ trials[i].inh < i /\ trials[trials[i].inh].inh = 0
   /\ trials[trials[i].inh].status # "backup"
\* A content of path p can be restored from trial i
Recoverable(ts, p, v) == \E i \in DOMAIN ts :
   \/ ts[i].script = p /\ ts[i].code = v
   \/ \E j \in DOMAIN ts[i].mods : ModPath(ts[i].mods[j].n) = p /\ ts[i].mods[j].c = v
   \/ \E j \in DOMAIN ts[i].acc : ts[i].acc[j].n = p /\ v \in {ts[i].acc[j].b, ts[i].acc[j].a}
\* N02, N14 as action properties
AppendOnly == [][/\ Len(trials') \in {Len(trials), Len(trials) + 1}
                 /\ \A i \in DOMAIN trials : trials'[i] = trials[i]]_vars
=============================================================================
