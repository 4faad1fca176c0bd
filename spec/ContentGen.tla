----------------------------- MODULE ContentGen -----------------------------
(* Histories of a content store: sessions of operations, ended in order or by a   *)
(* crash. TLC walks them at random (-simulate) or exhaustively (ContentGenMC).    *)
EXTENDS Content, TLC, Json, IOUtils, SequencesExt

Prof == JsonDeserialize(IOEnv.PROFILE)
Contents == {Prof.contents[i] : i \in 1..Len(Prof.contents)}
Names == {Prof.names[i] : i \in 1..Len(Prof.names)}

VARIABLES s, open, hist, n, left
vars == <<s, open, hist, n, left>>

Init == /\ s = Empty(Contents) /\ open = FALSE /\ hist = <<>> /\ n = 0
        /\ left \in (Prof.min)..(Prof.max)

Op(r) == hist' = Append(hist, r) /\ n' = n + 1
Keep == UNCHANGED <<open, left>>
Known == {c \in Contents : s.hash[c] # ""}
H(c) == "h" \o c

Open == /\ ~open /\ n < left /\ open' = TRUE /\ UNCHANGED <<s, left>>
        /\ \E e \in 1..Prof.engines : Op([k |-> "open", e |-> e])
Put == \E c \in Contents, m \in Names :
        /\ Op([k |-> "put", c |-> c, n |-> m])
        /\ s' = AfterPut(s, c, H(c), Prof.bg) /\ Keep
Get == \E c \in Known : Op([k |-> "get", c |-> c]) /\ UNCHANGED s /\ Keep
Find == \E c \in Known, l \in {Prof.prefixes[i] : i \in 1..Len(Prof.prefixes)} :
        Op([k |-> "find", c |-> c, n |-> l]) /\ UNCHANGED s /\ Keep
List == Op([k |-> "list"]) /\ UNCHANGED s /\ Keep
Close == Op([k |-> "close"]) /\ s' = AfterClose(s) /\ Keep
Commit == Op([k |-> "commit"]) /\ s' = AfterClose(s) /\ Keep
Gc == \E a \in BOOLEAN : s.pend = {} /\ Op([k |-> "gc", a |-> a]) /\ UNCHANGED s /\ Keep
Age == s.pend = {} /\ Op([k |-> "age"]) /\ UNCHANGED s /\ Keep
\* the session ends: waited for, or killed at a point of its last operations
End == /\ hist' = Append(hist, [k |-> "end"]) /\ n' = n + 1
       /\ open' = FALSE /\ s' = AfterClose(s) /\ UNCHANGED left
Crash == /\ Prof.crash /\ n < left
         /\ \E at \in 0..20 :
              hist' = Append(hist, [k |-> "crash", at |-> at * 5])
         /\ n' = n + 1
         /\ open' = FALSE /\ s' = AfterCrash(s, {}) /\ UNCHANGED left

Step == \/ Open
        \/ /\ open /\ n < left
           /\ \/ Put \/ Put \/ Get \/ Find \/ List \/ Close \/ Commit \/ Gc \/ Age \/ Crash \/ End
        \/ open /\ n >= left /\ End
Done == /\ n >= left /\ ~open /\ left < 1000
        /\ PrintT("@@" \o ToJson(hist))
        /\ left' = 1000 /\ UNCHANGED <<s, open, hist, n>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

\* what the store promises, on its own model
ReadyStays == [][s.ready \subseteq s'.ready]_vars
OneHash == \A c, d \in Contents : s.hash[c] = s.hash[d] /\ s.hash[c] # "" => c = d
Apart == s.ready \cap s.pend = {} /\ s.ready \cap s.maybe = {}
=============================================================================
