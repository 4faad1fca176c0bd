---------------------------- MODULE PyCoreTrace -----------------------------
(* Runs the machine of PyCore on each recorded program and compares what the real capture
   printed and recorded, for every way (variant) the program was run, with what the machine
   says. A variant limits the depth of the capture, saves at other moments, ... *)
EXTENDS PyCore, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, m, steps
vars == <<tr, m, steps>>
Depths(c) == {c.variants[l].depth: l \in 1..Len(c.variants)}
MaxSteps == 6000

\* ---------------------------------------------------- what must have been recorded
\* evaluations inside the captured depth, and the builtins that they use
Inside(d) == {i \in 1..Len(m.evs): m.evs[i].act # 0 /\ m.acts[m.evs[i].act].depth <= d}
Kept(d) == {1} \cup Inside(d) \cup {j \in 1..Len(m.evs): m.evs[j].act = 0 /\ \E i \in Inside(d): j \in m.evs[i].deps}
Key(i) == m.evs[i].key
ActOf(i) == ActOfEv(m, i)
Kind(i) == IF m.evs[i].call THEN "call" ELSE IF m.evs[i].par THEN "param" ELSE "value"

Rep(i) == m.evs[i].rep
Bad(v) ==
  LET K == Kept(v.depth)
      keys == {Key(i): i \in K}
      rec == {v.evals[j].key: j \in 1..Len(v.evals)}
      idx == [k \in rec |-> CHOOSE j \in 1..Len(v.evals): v.evals[j].key = k]
      both == {i \in K: Key(i) \in rec}
      R(i) == v.evals[idx[Key(i)]]
      deps(i) == {Key(j): j \in m.evs[i].deps \cap K}
      \* a call that raised has no value
      dbad == {i \in both: m.evs[i].ok /\ ToSet(R(i).deps) # deps(i)}
      rbad == {i \in both: m.evs[i].ok /\ Rep(i) # "?" /\ R(i).rep # Rep(i)}
      calls == {i \in both: m.evs[i].call /\ ~R(i).call} \cup {i \in both: ~m.evs[i].call /\ R(i).call}
      names == {i \in both: m.evs[i].call /\ R(i).call /\ R(i).nm # m.acts[ActOf(i)].nm}
      upbad == {i \in both: m.evs[i].act # 0 /\ R(i).up # m.acts[m.evs[i].act].key}
      \* the interval of a call is inside that of its caller and after the previous calls of it
      C == {i \in both: m.evs[i].call /\ R(i).call}
      late == {i \in C: \/ R(i).t0 > R(i).t1
                        \/ \E j \in C: /\ i # 1 /\ m.acts[m.evs[i].act].ev = j
                                       /\ (R(j).t0 > R(i).t0 \/ R(i).t1 > R(j).t1)
                        \/ \E j \in C: /\ j < i /\ m.evs[i].act = m.evs[j].act /\ R(j).t1 > R(i).t0}
      outc == (IF v.out = m.out THEN {} ELSE {<<"out", ToString(Len(m.out)), "", "">>})
      ends == IF v.end = (IF m.jump = "exc" THEN m.heap[m.jv.o].c ELSE "") THEN {} ELSE {<<"end", v.end, m.jump, "">>} IN
  {<<"missing", Key(i), "", Kind(i)>>: i \in {x \in K: Key(x) \notin rec}}
  \cup {<<"extra", k, "", IF v.evals[idx[k]].call THEN "call" ELSE "value">>: k \in rec \ keys}
  \cup {<<"deps", Key(i), ToString([want |-> deps(i), got |-> ToSet(R(i).deps)]), Kind(i)>>: i \in dbad}
  \cup {<<"rep", Key(i), Rep(i) \o " / " \o R(i).rep, Kind(i)>>: i \in rbad}
  \cup {<<"call", Key(i), "", "call">>: i \in calls}
  \cup {<<"name", Key(i), R(i).nm, "call">>: i \in names}
  \cup {<<"up", Key(i), R(i).up, Kind(i)>>: i \in upbad}
  \cup {<<"time", Key(i), "", "call">>: i \in late}
  \cup outc \cup ends

Report ==
  LET c == Cases[tr] IN
  /\ \A l \in {x \in 1..Len(c.variants): c.variants[x].depth = m.limit}:
       LET b == IF c.variants[l].plain
                THEN (IF c.variants[l].out = m.out THEN {} ELSE {<<"spec", ToString(m.out), ToString(c.variants[l].out), "">>})
                ELSE Bad(c.variants[l]) IN
       IF b = {} THEN TRUE ELSE PrintT("!!" \o ToJson([tr |-> tr, l |-> l, n |-> Cardinality(b), bad |-> SetToSeq(b)]))
  /\ PrintT("##" \o ToJson([tr |-> tr, evs |-> Len(m.evs), acts |-> Len(m.acts), steps |-> steps]))

TInit == /\ tr \in 1..Len(Cases) /\ steps = 0
         /\ \E d \in Depths(Cases[tr]): m = Start(Cases[tr].prog, d)
TNext == \/ /\ ~Over(m) /\ steps < MaxSteps
            /\ m' = Step(m) /\ steps' = steps + 1 /\ tr' = tr
         \/ /\ (Over(m) \/ steps = MaxSteps) /\ steps >= 0
            /\ IF Over(m) THEN Report ELSE PrintT("##" \o ToJson([tr |-> tr, evs |-> 0, acts |-> 0, steps |-> -1]))
            /\ steps' = -1 /\ UNCHANGED <<tr, m>>
Sound == steps >= 0 => WellFormed(m)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
