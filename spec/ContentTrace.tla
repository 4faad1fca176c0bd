---------------------------- MODULE ContentTrace ----------------------------
(* Recorded histories of the real engines, checked against Content.              *)
EXTENDS Content, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s
vars == <<tr, l, s>>
T == Traces[tr]
ContentsOf(t) == {t.contents[i] : i \in 1..Len(t.contents)}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Empty(ContentsOf(Traces[tr]))

Bad(e) ==
  \* a crash may leave locks that commits and garbage collection respect
  IF e.bad # "" THEN IF e.k \in {"commit", "gc"} /\ s.crashed THEN {} ELSE {"raised"}
  ELSE CASE e.k = "put" -> IF HashOK(s, e.c, e.hash) THEN {} ELSE {"hash"}
         [] e.k = "get" -> IF GetOK(s, e.c, e.res) THEN {}
                           ELSE IF e.res = Absent THEN {"unreadable"} ELSE {"wrong"}
         [] e.k = "find" -> IF FindOK(s, {e.matches[i] : i \in 1..Len(e.matches)}, e.res) THEN {} ELSE {"find"}
         [] e.k = "list" -> IF ListOK(s, e.list) THEN {} ELSE {"list"}
         [] e.k = "hung" -> {"hung"}
         [] OTHER -> {}
After(e) ==
  CASE e.k = "put" /\ e.bad = "" -> AfterPut(s, e.c, e.hash, e.bg)
    [] e.k = "put" -> AfterCrash(s, {e.c})
    [] e.k \in {"close", "commit"} /\ e.bad = "" -> AfterClose(s)
    [] e.k = "crash" -> AfterCrash(s, {e.busy[i] : i \in 1..Len(e.busy)})
    [] OTHER -> s
Next == /\ l <= Len(T.events)
        /\ LET e == T.events[l] IN
           /\ (Bad(e) # {} => PrintT("!!" \o ToJson([tr |-> tr, l |-> l, bad |-> SetToSeq(Bad(e)), ev |-> e])))
           /\ s' = After(e)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l = Len(T.events) => PrintT("##" \o ToJson([tr |-> tr])))
Spec == Init /\ [][Next]_vars
=============================================================================
