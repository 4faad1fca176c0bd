------------------------------ MODULE Closure ------------------------------
(* Referential closure of a provenance store. Each "trace" is one whole store as read from  *)
(* its database: a sequence of trials with the keys of their rows, heads, tags, parents.     *)
(* 0 stands for an absent reference.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Rng(s) == {s[i] : i \in DOMAIN s}
St == Traces[tr]

(* One trial: cc code components <<id, container>>, cb code blocks, ev evaluations           *)
(* <<activation, id, component>>, act activations <<id, code block>>, dep dependencies       *)
(* <<act1, eval1, act2, eval2, actC, evalC>>, mem members <<actC, evalC, act, eval>>,         *)
(* fa accesses <<activation>>, mod modules <<code block>>, comp compositions <<part, whole>> *)
Bad(t) ==
  LET C == {x[1] : x \in Rng(t.cc)}
      B == Rng(t.cb)
      E == {<<x[1], x[2]>> : x \in Rng(t.ev)}
      A == {x[1] : x \in Rng(t.act)}
      EvalOf(a) == {x \in E : x[2] = a}
      Caller(a) == (CHOOSE x \in EvalOf(a) : TRUE)[1]
      R(name, S) == {<<name, x>> : x \in S}
  IN UNION {
      R("duplicate evaluation", {x[2] : x \in {x \in E : Cardinality(EvalOf(x[2])) > 1 /\ x[2] \in A}}),
      R("duplicate component", IF Cardinality(C) = Len(t.cc) THEN {} ELSE {0}),
      R("duplicate activation", IF Cardinality(A) = Len(t.act) THEN {} ELSE {0}),
      R("duplicate row", IF Cardinality(E) = Len(t.ev) THEN {} ELSE {0}),
      R("main block", IF t.main \in B THEN {} ELSE {t.main}),
      R("container of component", {x[1] : x \in {x \in Rng(t.cc) : x[2] \notin C \cup {0}}}),
      R("cyclic containment", {x[1] : x \in {x \in Rng(t.cc) : x[2] >= x[1]}}),
      R("component of block", B \ C),
      R("component of evaluation", {x[2] : x \in {x \in Rng(t.ev) : x[3] \notin C}}),
      R("activation of evaluation", {x[2] : x \in {x \in Rng(t.ev) : x[1] \notin A \cup {0}}}),
      R("evaluation of activation", {a \in A : EvalOf(a) = {}}),
      R("block of activation", {x[1] : x \in {x \in Rng(t.act) : x[2] \notin B \cup {0}}}),
      \* Callers are earlier activations: with a single root this is a tree
      R("caller of activation", {a \in A : EvalOf(a) # {} /\ Caller(a) # 0 /\ ~(Caller(a) \in A /\ Caller(a) < a)}),
      R("roots", LET S == {a \in A : EvalOf(a) # {} /\ Caller(a) = 0}
                 IN IF Cardinality(S) = (IF t.ran THEN 1 ELSE 0) THEN {} ELSE S \cup {0}),
      R("dependency", {x \in Rng(t.dep) : <<x[1], x[2]>> \notin E \/ <<x[3], x[4]>> \notin E
                                          \/ (x[6] # 0 /\ <<x[5], x[6]>> \notin E)}),
      R("member", {x \in Rng(t.mem) : <<x[1], x[2]>> \notin E \/ <<x[3], x[4]>> \notin E}),
      R("activation of access", {x \in Rng(t.fa) : x \notin A /\ t.ran}),
      R("block of module", {x \in Rng(t.mod) : x \notin B}),
      R("composition", {x \in Rng(t.comp) : x[1] \notin C \cup {0} \/ x[2] \notin C}),
      R("unreadable content", Rng(t.unreadable)) }

StoreBad ==
  LET N == Len(St.trials)
      R(name, S) == {<<name, x>> : x \in S}
  IN UNION {
      R("parent", {i \in 1..N : St.trials[i].parent \notin 0..N}),
      R("inherited modules", {i \in 1..N : St.trials[i].inh \notin 0..N}),
      R("head", {x \in Rng(St.heads) : x \notin 1..N}),
      R("tag", {x \in Rng(St.tags) : x \notin 1..N}),
      \* rows of trials that do not exist
      R("orphan rows of", Rng(St.orphans)) }

Init == tr \in 1..Len(Traces) /\ l = 0
Next == /\ l <= Len(St.trials)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET b == IF l = 0 THEN StoreBad
                    ELSE IF St.trials[l].whole THEN Bad(St.trials[l]) ELSE {} IN
           b # {} => PrintT("!!" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
        /\ (l' > Len(St.trials) => PrintT("##" \o ToJson([tr |-> tr])))
Spec == Init /\ [][Next]_vars
=============================================================================
