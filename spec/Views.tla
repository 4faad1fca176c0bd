------------------------------- MODULE Views --------------------------------
(* The read-only views of a store as functions of its rows: the history of the trials (N20), the
   difference between two trials (N19), the graphs of the calls of a trial (N21), the exported
   facts (N22) and the slices of the dependencies (N25).

   A trace is a sequence of steps recorded from the code. A step "db" says what the rows of the
   store are from then on (the store was recorded to, or altered, by other processes). The other
   steps are requests with the answer of the code: a viewer may keep the store open or be opened
   anew, may have asked the same before, and may ask twice; the answer has to be the function of
   the present rows, and nothing else. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, db
vars == <<tr, pos, db>>
Nil == "nil"

(* ------------------------------------------------------------ history ------------------------------------------------------------ *)
(* db.trials: sequence of trials in the order of their start [id, script, status, parent, vers] *)
Trials == db.trials
Match(q, t) == /\ (q.script = "*" \/ t.script = q.script)
               /\ (q.status = "*" \/ t.status = q.status)
Index(id) == LET S == {i \in DOMAIN Trials : Trials[i].id = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
RECURSIVE Ancestors(_)         \* indices from the parent to the oldest ancestor
Ancestors(i) == LET p == Index(Trials[i].parent) IN IF p = 0 THEN <<>> ELSE <<p>> \o Ancestors(p)
NearestMatch(q, i) == LET A == SelectSeq(Ancestors(i), LAMBDA a : Match(q, Trials[a])) IN IF A = <<>> THEN 0 ELSE A[1]

HistNodes(q) == LET ok == SelectSeq([i \in DOMAIN Trials |-> i], LAMBDA i : Match(q, Trials[i]))
                IN [k \in DOMAIN ok |-> <<Trials[ok[k]].id>>]
HistEdges(q) == {<<<<Trials[i].id>>, <<Trials[NearestMatch(q, i)].id>>>> :
                   i \in {j \in DOMAIN Trials : Match(q, Trials[j]) /\ NearestMatch(q, j) # 0}}
BadHistory(q, a) ==
  IF a.nodes # HistNodes(q) THEN {[at |-> "nodes", want |-> HistNodes(q), got |-> a.nodes]}
  ELSE LET \* a trial without ancestors may be marked by an edge to itself
           roots == {<<<<Trials[i].id>>, <<Trials[i].id>>>> : i \in {j \in DOMAIN Trials : Match(q, Trials[j]) /\ NearestMatch(q, j) = 0}}
           got == Range(a.edges)
       IN IF got \ roots # HistEdges(q) \/ Len(a.edges) # Cardinality(got)
          THEN {[at |-> "edges", want |-> HistEdges(q) \ got, got |-> (got \ roots) \ HistEdges(q)]} ELSE {}

(* The summarised history: a node is the set of the (matching) trials of one version. *)
Versions == UNION {Range(Trials[i].vers) : i \in DOMAIN Trials}
GroupOf(q, v) == {Trials[i].id : i \in {j \in DOMAIN Trials : v \in Range(Trials[j].vers) /\ Match(q, Trials[j])}}
Members(v) == {i \in DOMAIN Trials : v \in Range(Trials[i].vers)}
Above(v) == {w \in Versions \ {v} : \E i \in Members(v) : \E j \in Members(w) : Trials[i].parent = Trials[j].id}
RECURSIVE Closure(_, _)
Closure(S, seen) == IF S \subseteq seen THEN seen ELSE Closure(UNION {Above(v) : v \in S}, seen \cup S)
AllAbove(v) == Closure(Above(v), {}) \ {v}
SumNodes(q) == {GroupOf(q, v) : v \in {w \in Versions : GroupOf(q, w) # {}}}
VersionOf(g) == CHOOSE v \in Versions : g \subseteq {Trials[i].id : i \in Members(v)}
BadSummary(q, a) ==
  LET nodes == {Range(n) : n \in Range(a.nodes)}
      edges == {<<Range(e[1]), Range(e[2])>> : e \in Range(a.edges)}
      linked(g) == {h \in nodes \ {g} : VersionOf(h) \in AllAbove(VersionOf(g))}
  IN IF nodes # SumNodes(q) \/ Len(a.nodes) # Cardinality(nodes)
       THEN {[at |-> "groups", want |-> SumNodes(q), got |-> a.nodes]}
     ELSE {[at |-> "ancestry of a group", want |-> linked(g), got |-> {e \in edges : e[1] = g}] : g \in
            {g \in nodes : ~(/\ \A e \in edges : e[1] = g => e[2] \in linked(g) \cup (IF linked(g) = {} THEN {g} ELSE {})
                             /\ (linked(g) # {} => \E e \in edges : e[1] = g))}}

(* ------------------------------------------------------------ difference ------------------------------------------------------------ *)
(* db.items[t][k]: the items of kind k of the trial t; the first field of an item is its name *)
Items(t, k) == Range(db.items[t][k])
BadDiff(q, a) ==
  LET Kind(k) ==
        LET A == Items(q.t1, k)  B == Items(q.t2, k)
            add == Range(a[k].added)  rem == Range(a[k].removed)  rep == Range(a[k].replaced)
            rold == {p[1] : p \in rep}   rnew == {p[2] : p \in rep}
            once(s) == Len(s) = Cardinality(Range(s))
        IN IF ~(/\ add \cup rnew = B \ A  /\ add \cap rnew = {}
                /\ rem \cup rold = A \ B  /\ rem \cap rold = {}
                /\ Cardinality(rold) = Len(a[k].replaced) /\ Cardinality(rnew) = Len(a[k].replaced)
                /\ once(a[k].added) /\ once(a[k].removed)
                /\ \A p \in rep : p[1][1] = p[2][1]
                \* an item is added or removed only if nothing of its name is left on the other side;
                \* accesses are events, not entities with an identity: they are never replaced
                /\ IF k = "accesses" THEN rep = {} ELSE \A x \in add, y \in rem : x[1] # y[1])
             THEN {[at |-> k, only1 |-> A \ B, only2 |-> B \ A, got |-> a[k]]} ELSE {}
      cols(t) == Trials[Index(t)].cols   \* texts of the columns
      want == {c \in Range(a.keys) \cap DOMAIN cols(q.t1) : cols(q.t1)[c] # cols(q.t2)[c]}
      got == Range(a.trial) \ {"duration_text"}
      core == {"script", "start", "finish", "command", "status", "code_hash", "parent_id", "path"}
  IN Kind("modules") \cup Kind("environment") \cup Kind("accesses")
     \cup (IF got # want \/ ~(core \subseteq Range(a.keys))
             THEN {[at |-> "trial", only1 |-> want, only2 |-> Range(a.keys), got |-> a.trial]} ELSE {})

(* ------------------------------------------------------------ graphs of calls ------------------------------------------------------------ *)
(* db.acts: activations in the order in which they started [id, up (the caller), name, line, dur] *)
BadGraph(q, a) ==
  LET A == db.acts
      N == DOMAIN A
      At == [x \in {A[i].id : i \in N} |-> CHOOSE i \in N : A[i].id = x]
      Last1 == Len(A)
      Up == TLCEval([i \in N |-> IF A[i].up \in DOMAIN At THEN At[A[i].up] ELSE 0])
      Kids == TLCEval([i \in N |-> SelectSeq([j \in N |-> j], LAMBDA j : Up[j] = i)])
      \* a call starts after its caller: shapes from the last call on, paths from the first
      Shape == FoldLeft(LAMBDA f, k : LET i == Last1 - k + 1
                                      IN TLCEval((i :> <<A[i].line, A[i].name, [x \in DOMAIN Kids[i] |-> f[Kids[i][x]]]>>) @@ f),
                        <<>>, [k \in N |-> k])
      Key(i) == CASE q.mode \in {0, 1} -> <<A[i].id>>
                  [] q.mode = 2 -> Shape[i]          \* calls with the same sub-calls
                  [] q.mode = 3 -> <<A[i].line, A[i].name>>
      \* the class of a call: the first call with the same key in the same class of callers
      Cls == FoldLeft(LAMBDA f, i : LET p == IF Up[i] = 0 THEN 0 ELSE f[Up[i]]
                                        S == {j \in 1..(i - 1) : (IF Up[j] = 0 THEN 0 ELSE f[Up[j]]) = p /\ Key(j) = Key(i)}
                                    IN TLCEval(Append(f, IF S = {} THEN i ELSE Min(S))),
                      <<>>, [k \in N |-> k])
      Class(i) == {A[j].id : j \in {j \in N : Cls[j] = Cls[i]}}
      want == {Class(i) : i \in N}
      got == {Range(g.ids) : g \in Range(a.nodes)}
      G == DOMAIN a.nodes
      Holds == TLCEval([i \in N |-> CHOOSE g \in G : A[i].id \in Range(a.nodes[g].ids)])
      Holder(i) == Holds[i]
      Total(S) == FoldSet(LAMBDA x, t : t + A[At[x]].dur, 0, S)
      badup == {g \in G : LET i == At[a.nodes[g].ids[1]]
                          IN a.nodes[g].up # (IF Up[i] = 0 THEN 0 ELSE Holder(Up[i]))}
      badsum == {g \in G : a.nodes[g].dur # Total(Range(a.nodes[g].ids))}
      badkids == {g \in G : Range(a.nodes[g].kids) # {m \in G : a.nodes[m].up = g}
                            \/ Len(a.nodes[g].kids) # Cardinality({m \in G : a.nodes[m].up = g})}
      badname == {g \in G : a.nodes[g].name # A[At[a.nodes[g].ids[1]]].name}
      H(i) == Holder(i)
      calls == {<<H(i), H(Kids[i][k])>> : i \in {i \in N : Kids[i] # <<>>}, k \in {1}}
      backs == {<<H(Kids[i][Len(Kids[i])]), H(i)>> : i \in {i \in N : Kids[i] # <<>>}}
      nexts == UNION {{<<H(Kids[i][k]), H(Kids[i][k + 1])>> : k \in 1..(Len(Kids[i]) - 1)} : i \in {i \in N : Kids[i] # <<>>}}
      tree == UNION {{<<H(i), H(Kids[i][k])>> : k \in DOMAIN Kids[i]} : i \in N}
      typed(t) == {<<e[1], e[2]>> : e \in {e \in Range(a.edges) : e[3] = t}}
      badedges == CASE q.mode = 0 -> typed("call") # tree
                    [] q.mode = 1 -> typed("call") # calls \/ typed("return") # backs \/ typed("sequence") # nexts
                    [] OTHER -> FALSE
  IN IF want # got \/ Cardinality(got) # Len(a.nodes) \/ \E g \in G : Len(a.nodes[g].ids) # Cardinality(Range(a.nodes[g].ids))
       THEN {[at |-> "partition of the calls", want |-> want \ got, got |-> got \ want]}
     ELSE IF badup # {} THEN {[at |-> "parent of a node", want |-> {}, got |-> {a.nodes[g] : g \in badup}]}
     ELSE IF badsum # {} THEN {[at |-> "duration of a node", want |-> {Total(Range(a.nodes[g].ids)) : g \in badsum}, got |-> {a.nodes[g] : g \in badsum}]}
     ELSE IF badkids # {} THEN {[at |-> "children of a node", want |-> {}, got |-> {a.nodes[g] : g \in badkids}]}
     ELSE IF badname # {} THEN {[at |-> "name of a node", want |-> {}, got |-> {a.nodes[g] : g \in badname}]}
     ELSE IF badedges THEN {[at |-> "edges", want |-> {calls, backs, nexts}, got |-> Range(a.edges)]} ELSE {}

(* ------------------------------------------------------------ exported facts ------------------------------------------------------------ *)
(* db.facts: for every kind of fact, the rows of the trial; a row is a sequence of fields
   [k |-> kind, v |-> characters], in the order of the definition of the fact (Schema). *)
Schema == [ trial |-> <<"text", "text", "time", "time", "text", "text", "id", "id", "id">>,
            tag |-> <<"text", "text", "text", "time">>,
            argument |-> <<"text", "repr", "repr">>,
            module |-> <<"text", "id", "repr", "repr", "repr", "id", "bool", "repr">>,
            environment |-> <<"text", "repr", "repr">>,
            code_component |-> <<"text", "id", "repr", "text", "text", "id", "id", "id", "id", "id">>,
            code_block |-> <<"text", "id", "text", "repr">>,
            activation |-> <<"text", "id", "repr", "id", "id">>,
            evaluation |-> <<"text", "id", "id", "id", "id", "repr", "id">>,
            dependency |-> <<"text", "id", "id", "id", "id", "text", "bool", "id", "id", "repr">>,
            access |-> <<"text", "id", "repr", "text", "text", "text", "id", "id">>,
            member |-> <<"text", "id", "id", "id", "id", "repr", "id", "text">> ]
(* Reading a term of Prolog: a quoted atom or a plain token. st is the state of the reader:
   "start" of an argument, "quoted", "quote" (a quote inside of a quoted atom: its end, or the
   first of two), "escape" (after a backslash), "plain", "end" (after the closing parenthesis). *)
Escaped(c) == CASE c = "n" -> "\n" [] c = "r" -> "\r" [] c = "t" -> "\t" [] OTHER -> c
ReadStep(r, c) ==
  IF r.st = "bad" THEN r ELSE
  CASE r.st = "start" -> IF c = "'" THEN [r EXCEPT !.st = "quoted", !.q = TRUE]
                         ELSE IF c = " " THEN r
                         ELSE [r EXCEPT !.st = "plain", !.cur = <<c>>, !.q = FALSE]
    [] r.st = "plain" -> IF c = "," THEN [r EXCEPT !.st = "start", !.out = Append(@, [q |-> FALSE, v |-> r.cur]), !.cur = <<>>]
                         ELSE IF c = ")" THEN [r EXCEPT !.st = "end", !.out = Append(@, [q |-> FALSE, v |-> r.cur]), !.cur = <<>>]
                         ELSE IF c \in {"'", "\"", "(", "\\", " "} THEN [r EXCEPT !.st = "bad"]
                         ELSE [r EXCEPT !.cur = Append(@, c)]
    [] r.st = "quoted" -> IF c = "'" THEN [r EXCEPT !.st = "quote"]
                          ELSE IF c = "\\" THEN [r EXCEPT !.st = "escape"]
                          ELSE IF c = "\n" \/ c = "\r" THEN [r EXCEPT !.st = "bad"]     \* an atom does not span lines
                          ELSE [r EXCEPT !.cur = Append(@, c)]
    [] r.st = "escape" -> IF c \in {"\\", "'", "\"", "n", "r", "t"} THEN [r EXCEPT !.st = "quoted", !.cur = Append(@, Escaped(c))]
                          ELSE [r EXCEPT !.st = "bad"]
    [] r.st = "quote" -> IF c = "'" THEN [r EXCEPT !.st = "quoted", !.cur = Append(@, "'")]
                         ELSE IF c = "," THEN [r EXCEPT !.st = "start", !.out = Append(@, [q |-> TRUE, v |-> r.cur]), !.cur = <<>>]
                         ELSE IF c = ")" THEN [r EXCEPT !.st = "end", !.out = Append(@, [q |-> TRUE, v |-> r.cur]), !.cur = <<>>]
                         ELSE [r EXCEPT !.st = "bad"]
    [] r.st = "end" -> IF c = "." THEN [r EXCEPT !.st = "done"] ELSE [r EXCEPT !.st = "bad"]
    [] r.st = "done" -> [r EXCEPT !.st = "bad"]
    [] OTHER -> [r EXCEPT !.st = "bad"]
ReadArgs(s) == FoldLeft(ReadStep, [st |-> "start", cur |-> <<>>, out |-> <<>>, q |-> FALSE], s)

(* What an atom stands for. A value that is itself the text of a literal (the representation of a
   string in Python, with its quotes and an optional prefix letter) is exported without them. *)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Unquoted(v) ==
  LET w == IF Len(v) > 1 /\ v[1] \in Letters /\ v[2] \in {"'", "\""} THEN Tail(v) ELSE v
  IN IF Len(w) > 1 /\ w[1] \in {"'", "\""} /\ w[Len(w)] = w[1] THEN SubSeq(w, 2, Len(w) - 1) ELSE v
Word(v) == [q |-> FALSE, v |-> v]
Stored(kind, hide, f) ==      \* the term that stands for a stored field
  CASE kind = "time" /\ hide -> Word(<<"n", "i", "l">>)
    [] kind = "time" /\ f.k = "nil" -> Word(<<"-", "1">>)
    [] f.k = "nil" -> Word(<<"n", "i", "l">>)
    [] kind \in {"text", "repr"} -> [q |-> TRUE, v |-> Unquoted(f.v)]
    [] OTHER -> Word(f.v)
Term(kind, g) == IF kind = "id" /\ g.q THEN Word(g.v) ELSE g     \* (some identifiers are atoms)
StoredRow(k, hide, row) == [i \in DOMAIN row |-> Stored(Schema[k][i], hide, row[i])]
ReadRow(k, text) == LET r == ReadArgs(text)
                    IN IF r.st # "done" \/ Len(r.out) # Len(Schema[k]) THEN <<>>
                       ELSE [i \in DOMAIN r.out |-> Term(Schema[k][i], r.out[i])]
(* q.hide: hide the timestamps; a.facts[kind]: the texts of the facts after "kind(", a.other: the
   lines of the text that are not facts, comments or directives *)
BadExport(q, a) ==
  (IF a.other # <<>> THEN {[at |-> "text that is not a fact", want |-> {}, got |-> {a.other[1]}]} ELSE {})
  \cup UNION {
    LET rows == db.facts[k]   got == a.facts[k]
    IN IF Len(rows) # Len(got) THEN {[at |-> "number of facts of " \o k, want |-> {Len(rows)}, got |-> {Len(got)}]}
       ELSE LET W == {StoredRow(k, q.hide, rows[i]) : i \in DOMAIN rows}
                bad == {i \in DOMAIN got : ReadRow(k, got[i]) \notin W}
                R == {ReadRow(k, got[i]) : i \in DOMAIN got}
            IN {[at |-> "fact of " \o k, want |-> W \ R, got |-> {a.raw[k][i]}] : i \in bad}
               \cup (IF bad = {} /\ W # R THEN {[at |-> "missing fact of " \o k, want |-> W \ R, got |-> {}]} ELSE {})
    : k \in DOMAIN Schema}

(* ------------------------------------------------------------ slices ------------------------------------------------------------ *)
(* db.evals: sequence of [id, cp (rank of the time), box (the evaluation that holds its parts)];
   db.deps: sequence of <<dependent, dependency>>; db.members: sequence of [box, key, cp, id].

   What influenced a value is a set of contexts <<evaluation, time>>: an evaluation is influenced
   by its dependencies, at the time at which each was evaluated (0), and by the parts that its
   value had at the time at which it is looked at: the last one of each key. *)
Slice(ev) ==
  LET E == TLCEval([x \in {e.id : e \in Range(db.evals)} |-> CHOOSE e \in Range(db.evals) : e.id = x])
      D == TLCEval([x \in DOMAIN E |-> {<<d[2], 0>> : d \in {d \in Range(db.deps) : d[1] = x}}])
      M == TLCEval([x \in DOMAIN E |-> {m \in Range(db.members) : m.box = x}])
      Parts(x, t) == LET P == {m \in M[E[x].box] : m.cp <= t}
                     IN {<<m.id, t>> : m \in {m \in P : \A o \in P : o.key = m.key => o.cp <= m.cp}}
      Succ(c) == D[c[1]] \cup Parts(c[1], IF c[2] = 0 THEN E[c[1]].cp ELSE c[2])
      Step(acc, k) == IF acc.new = {} THEN acc
                      ELSE LET nx == TLCEval(UNION {Succ(c) : c \in acc.new} \ acc.seen)
                           IN [seen |-> acc.seen \cup nx, new |-> nx]
      Reach == FoldLeft(Step, [seen |-> {<<ev, 0>>}, new |-> {<<ev, 0>>}], [k \in 1..(2 * Len(db.evals)) |-> k])
  IN IF Reach.new # {} THEN Assert(FALSE, "slice too deep") ELSE {c[1] : c \in Reach.seen}
(* The graph of the slice shows the evaluations of the whole graph that belong to it, with every
   arrow among them; an arrow that the whole graph does not have stands for a path through
   evaluations that are not shown. *)
BadSlice(q, a) ==
  LET S == Slice(q.ev)
      shown == Range(a.nodes)   want == Range(a.all) \cap S
      whole == Range(a.allarcs)  arcs == Range(a.arcs)
      inner == {e \in whole : {e[1], e[2]} \subseteq S}
      RECURSIVE Over(_, _)
      Over(X, seen) == IF X \subseteq seen THEN seen
                       ELSE Over({e[2] : e \in {e \in whole : e[1] \in X /\ e[1] \notin want}}, seen \cup X)
      extra == {e \in arcs \ inner : e[2] \notin Over({f[2] : f \in {f \in whole : f[1] = e[1]}}, {})}
  IN IF Range(a.list) # S THEN {[at |-> "evaluations that influenced", want |-> S \ Range(a.list), got |-> Range(a.list) \ S]}
     ELSE IF shown # want THEN {[at |-> "evaluations of a slice", want |-> want \ shown, got |-> shown \ want]}
     ELSE IF ~(inner \subseteq arcs) \/ extra # {} THEN {[at |-> "dependencies of a slice", want |-> inner \ arcs, got |-> extra]}
     ELSE {}

(* ------------------------------------------------------------ traces ------------------------------------------------------------ *)
Steps == Cases[tr]
Bad(s) == IF "failed" \in DOMAIN s.a THEN {[at |-> "request", want |-> {}, got |-> {s.a.failed}]}
          ELSE CASE s.k = "history" -> IF s.sum THEN BadSummary(s, s.a) ELSE BadHistory(s, s.a)
                 [] s.k = "diff" -> BadDiff(s, s.a)
                 [] s.k = "graph" -> BadGraph(s, s.a)
                 [] s.k = "export" -> BadExport(s, s.a)
                 [] s.k = "slice" -> BadSlice(s, s.a)
TInit == tr \in 1..Len(Cases) /\ pos = 1 /\ db = [none |-> 0]
Change == /\ pos > 0 /\ pos <= Len(Steps) /\ Steps[pos].k = "db"
          /\ db' = Steps[pos].db @@ db /\ pos' = pos + 1 /\ UNCHANGED tr
Ask == /\ pos > 0 /\ pos <= Len(Steps) /\ Steps[pos].k # "db"
       /\ LET bad == Bad(Steps[pos])
          IN IF bad = {} THEN TRUE
             ELSE PrintT("!!" \o ToJson([tr |-> tr, l |-> pos, bad |-> CHOOSE b \in bad : TRUE]))
       /\ pos' = pos + 1 /\ UNCHANGED <<tr, db>>
Finish == /\ pos > Len(Steps) /\ PrintT("##" \o ToJson([tr |-> tr])) /\ pos' = -1 /\ UNCHANGED <<tr, db>>
TNext == Change \/ Ask \/ Finish
TSpec == TInit /\ [][TNext]_vars
=============================================================================
