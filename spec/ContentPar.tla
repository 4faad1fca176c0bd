----------------------------- MODULE ContentPar -----------------------------
(* How storing happens: puts hand tasks to background workers (or to the caller   *)
(* itself), a worker writes aside and then gives the content its name, closing    *)
(* waits for every task. All interleavings and all crash points, refined into     *)
(* Content: what is ready there is visible and whole here.                        *)
EXTENDS Content, TLC
CONSTANTS Workers, Contents, Procs, MaxPuts, Background

VARIABLES abs,      \* the Content state the users may rely on
          queue,    \* tasks put and not taken
          work,     \* worker -> [c, step] ; step: idle, aside, named
          disk,     \* content -> none, part (being written aside), whole
          puts, phase
vars == <<abs, queue, work, disk, puts, phase>>
Idle == [c |-> "", step |-> "idle"]
H(c) == "h" \o c

Init == /\ abs = Empty(Contents) /\ queue = <<>> /\ work = [w \in Workers |-> Idle]
        /\ disk = [c \in Contents |-> "none"] /\ puts = 0 /\ phase = "run"

Put(c) == /\ phase = "run" /\ puts < MaxPuts /\ puts' = puts + 1
          /\ Background
          /\ queue' = Append(queue, c)
          /\ abs' = AfterPut(abs, c, H(c), TRUE)
          /\ UNCHANGED <<work, disk, phase>>
\* without workers of its own the caller does the work: it returns only when done
PutSelf(w, c) == /\ phase = "run" /\ puts < MaxPuts /\ ~Background /\ work[w] = Idle
                 /\ puts' = puts + 1
                 /\ work' = [work EXCEPT ![w] = [c |-> c, step |-> "start"]]
                 /\ UNCHANGED <<abs, queue, disk, phase>>
Take(w) == /\ phase \in {"run", "closing"} /\ queue # <<>> /\ work[w] = Idle
           /\ work' = [work EXCEPT ![w] = [c |-> Head(queue), step |-> "start"]]
           /\ queue' = Tail(queue) /\ UNCHANGED <<abs, disk, puts, phase>>
Aside(w) == /\ phase \in {"run", "closing"} /\ work[w].step = "start"
            /\ work' = [work EXCEPT ![w].step = "aside"]
            /\ UNCHANGED <<abs, queue, disk, puts, phase>>
Name(w) == /\ phase \in {"run", "closing"} /\ work[w].step = "aside"
           /\ disk' = [disk EXCEPT ![work[w].c] = "whole"]
           /\ work' = [work EXCEPT ![w].step = "named"]
           /\ UNCHANGED <<abs, queue, puts, phase>>
Return(w) == /\ phase \in {"run", "closing"} /\ work[w].step = "named"
             /\ abs' = IF Background THEN abs ELSE AfterPut(abs, work[w].c, H(work[w].c), FALSE)
             /\ work' = [work EXCEPT ![w] = Idle]
             /\ UNCHANGED <<queue, disk, puts, phase>>
StartClose == phase = "run" /\ phase' = "closing" /\ UNCHANGED <<abs, queue, work, disk, puts>>
Closed == /\ phase = "closing" /\ queue = <<>> /\ \A w \in Workers : work[w] = Idle
          /\ phase' = "run" /\ abs' = AfterClose(abs) /\ UNCHANGED <<queue, work, disk, puts>>
Crash == /\ phase \in {"run", "closing"}
         /\ abs' = AfterCrash(abs, IF Background THEN {} ELSE {work[w].c : w \in Workers})
         /\ queue' = <<>> /\ work' = [w \in Workers |-> Idle] /\ phase' = "run"
         /\ ~abs.crashed
         /\ UNCHANGED <<disk, puts>>
Next == \/ \E c \in Contents : Put(c) \/ \E w \in Workers : PutSelf(w, c)
        \/ \E w \in Workers : Take(w) \/ Aside(w) \/ Name(w) \/ Return(w)
        \/ StartClose \/ Closed \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(\E w \in Workers : Take(w) \/ Aside(w) \/ Name(w) \/ Return(w))
        /\ WF_vars(Closed)

Readable(c) == disk[c] = "whole"
ReadyReadable == \A c \in abs.ready : GetOK(abs, c, IF Readable(c) THEN c ELSE Absent)
AbsentRight == \A c \in Contents : GetOK(abs, c, IF Readable(c) THEN c ELSE Absent) \/ c \in {work[w].c : w \in Workers}
\* closing always ends
CloseEnds == (phase = "closing") ~> (phase = "run")
=============================================================================
