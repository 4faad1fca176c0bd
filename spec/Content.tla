------------------------------ MODULE Content ------------------------------
(* The content store as its users see it: contents go in, hashes come out, and   *)
(* whatever completed stays readable - through background storage, commits,      *)
(* garbage collection, new processes and crashes.                                *)
EXTENDS Naturals, Sequences, FiniteSets

\* A store: ready - contents that must be readable; pend - put, but storing has not
\* been waited for; maybe - storing was interrupted, either outcome is right;
\* hash - the hash of every content some put returned ("" when none did).
Empty(contents) == [ready |-> {}, pend |-> {}, maybe |-> {}, hash |-> [c \in contents |-> ""],
                    crashed |-> FALSE]

\* storing completes when put returns, or (background) when close returns
AfterPut(s, c, h, bg) ==
    LET s1 == IF h = "" THEN s ELSE [s EXCEPT !.hash[c] = h] IN
    IF c \in s1.ready THEN s1
    ELSE IF bg THEN [s1 EXCEPT !.pend = @ \cup {c}]
    ELSE [s1 EXCEPT !.ready = @ \cup {c}, !.maybe = @ \ {c}]
AfterClose(s) == [s EXCEPT !.ready = @ \cup s.pend, !.pend = {}, !.maybe = @ \ s.pend]
\* all processes that store die; `busy` is the content whose put had not returned
AfterCrash(s, busy) == [s EXCEPT !.maybe = (@ \cup s.pend \cup (busy \ {""})) \ s.ready, !.pend = {}, !.crashed = TRUE]

\* equal content, equal hash; different content, different hash
HashOK(s, c, h) ==
    /\ h # ""
    /\ s.hash[c] \in {"", h}
    /\ \A d \in DOMAIN s.hash : d # c => s.hash[d] # h

Absent == "!"
GetOK(s, c, r) == CASE c \in s.ready -> r = c
                    [] c \in s.pend \cup s.maybe -> r \in {c, Absent}
                    [] OTHER -> r = Absent

\* listing reports exactly the contents stored
ListOK(s, hs) ==
    LET must == {s.hash[c] : c \in s.ready}
        may == {s.hash[c] : c \in s.pend \cup s.maybe}
        nameless == {c \in s.maybe : s.hash[c] = ""}
        got == {hs[i] : i \in 1..Len(hs)}
    IN /\ must \subseteq got
       /\ Cardinality(got \ (must \cup may)) <= Cardinality(nameless)

\* a prefix of one content's hash finds it
FindOK(s, matchesOf, r) ==
    LET m == {c \in s.ready : c \in matchesOf}
        mm == {c \in s.pend \cup s.maybe : c \in matchesOf \/ s.hash[c] = ""}
    IN CASE Cardinality(m) = 1 /\ mm = {} -> \E c \in m : r = s.hash[c]
         [] m = {} /\ mm = {} -> r \in {"-", "!"}
         [] OTHER -> r \in {"-", "!"} \cup {s.hash[c] : c \in m \cup mm} \/ "" \in {s.hash[c] : c \in mm}
=============================================================================
