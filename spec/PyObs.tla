------------------------------- MODULE PyObs --------------------------------
(* What the outside sees of the run of a script, whatever the script is: the lines it writes on
   its outputs, the files it leaves and the way it ends. A program is a hidden machine that
   emits these events; capturing it must not change them. For constructs outside of the language
   of PyCore.tla the behaviour of the hidden machine is the one that the plain interpreter
   showed (ref); the machine below accepts a captured run only if it emits the same events, and
   stops at the first one that differs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, ok
vars == <<tr, pos, ok>>
Ref == Cases[tr].ref                 \* sequence of events <<channel, text>>
Got == Cases[tr].got
Said(s, i) == IF i <= Len(s) THEN s[i] ELSE <<"nothing", "">>

TInit == tr \in 1..Len(Cases) /\ pos = 1 /\ ok = TRUE
Emit ==      \* both emit the same event
  /\ ok /\ pos > 0 /\ pos <= Len(Ref) /\ pos <= Len(Got) /\ Ref[pos] = Got[pos]
  /\ pos' = pos + 1 /\ UNCHANGED <<tr, ok>>
Differ ==
  /\ ok /\ pos > 0 /\ Said(Ref, pos) # Said(Got, pos)
  /\ PrintT("!!" \o ToJson([tr |-> tr, l |-> 1, bad |-> <<Said(Ref, pos), Said(Got, pos)>>]))
  /\ ok' = FALSE /\ UNCHANGED <<tr, pos>>
Finish ==
  /\ pos > 0 /\ (~ok \/ (pos > Len(Ref) /\ pos > Len(Got)))
  /\ PrintT("##" \o ToJson([tr |-> tr]))
  /\ pos' = -1 /\ UNCHANGED <<tr, ok>>
TNext == Emit \/ Differ \/ Finish
TSpec == TInit /\ [][TNext]_vars
=============================================================================
