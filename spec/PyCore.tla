------------------------------- MODULE PyCore -------------------------------
(* The programs whose runs noWorkflow captures, and what a capture must record.

   A program is a tree of statements and expressions (data, see lib/pyprogs.py). The machine
   below executes it step by step, as Python does: a stack of pending tasks, a stack of
   computed operands, activations (frames) and a heap. Along with each step it keeps the
   provenance that the step must leave:

     evs   evaluations: key, text of the value, the evaluations it depends on
     acts  activations: key, caller, depth, parameters
     mem   for every object of the heap, which evaluation stored each of its members

   An evaluation is named by its activation, the node of the program that was evaluated and
   how often that node had been evaluated in this activation, so that no order of row numbers
   is prescribed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Cut(s, n) == SubSeq(s, 1, n)
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
EmptyF == [x \in {} |-> 0]

IntV(i) == [t |-> "int", i |-> i]
Str(s) == [t |-> "str", s |-> s]
Bool(b) == [t |-> "bool", b |-> b]
None == [t |-> "none"]
Ref(o) == [t |-> "ref", o |-> o]
Fun(b) == [t |-> "blt", f |-> b]         \* a builtin function
Builtins == {"print", "len", "range", "abs", "str", "sum", "ValueError", "KeyError", "IndexError",
             "ZeroDivisionError", "Exception", "sorted", "max", "TypeError", "AttributeError"}
ExcClasses == {"ValueError", "KeyError", "IndexError", "ZeroDivisionError", "Exception", "TypeError", "AttributeError"}

\* ------------------------------------------------------------------ values
RECURSIVE Join(_, _), Repr(_, _)
Join(ss, sep) == IF ss = <<>> THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Repr(h, v) ==
  CASE v.t = "int" -> ToString(v.i)
    [] v.t = "str" -> "'" \o v.s \o "'"
    [] v.t = "bool" -> IF v.b THEN "True" ELSE "False"
    [] v.t = "none" -> "None"
    [] v.t = "blt" -> "?"
    [] v.t = "ref" ->
        LET o == h[v.o] IN
        CASE o.k = "list" -> "[" \o Join([i \in 1..Len(o.es) |-> Repr(h, o.es[i])], ", ") \o "]"
          [] o.k = "tuple" -> IF Len(o.es) = 1 THEN "(" \o Repr(h, o.es[1]) \o ",)"
                              ELSE "(" \o Join([i \in 1..Len(o.es) |-> Repr(h, o.es[i])], ", ") \o ")"
          [] o.k = "dict" -> "{" \o Join([i \in 1..Len(o.ks) |->
                                Repr(h, o.ks[i]) \o ": " \o Repr(h, o.es[i])], ", ") \o "}"
          [] o.k = "range" -> "range(" \o ToString(o.lo) \o ", " \o ToString(o.hi) \o ")"
          [] o.k = "exc" -> o.c \o "(" \o Join([i \in 1..Len(o.es) |-> Repr(h, o.es[i])], ", ") \o ")"
          [] OTHER -> "?"
    [] OTHER -> "?"
\* texts that contain an address are not compared
RECURSIVE Plain(_, _)
Plain(h, v) ==
  CASE v.t = "blt" -> FALSE
    [] v.t = "ref" ->
        LET o == h[v.o] IN
        CASE o.k \in {"list", "tuple"} -> \A i \in 1..Len(o.es): Plain(h, o.es[i])
          [] o.k = "dict" -> \A i \in 1..Len(o.es): Plain(h, o.es[i]) /\ Plain(h, o.ks[i])
          [] o.k = "exc" -> \A i \in 1..Len(o.es): Plain(h, o.es[i])
          [] OTHER -> o.k = "range"
    [] OTHER -> TRUE
Text(h, v) == IF v.t = "str" THEN v.s
              ELSE IF v.t = "ref" /\ h[v.o].k = "exc"
                   THEN IF h[v.o].es = <<>> THEN ""
                        ELSE LET a == h[v.o].es[1] IN
                             IF a.t = "str" /\ h[v.o].c # "KeyError" THEN a.s ELSE Repr(h, a)
                   ELSE Repr(h, v)
RECURSIVE Same(_, _, _)
Same(h, a, b) ==       \* a == b
  IF a.t = "ref" /\ b.t = "ref"
  THEN \/ a.o = b.o
       \/ /\ h[a.o].k = h[b.o].k /\ h[a.o].k \in {"list", "tuple"}
          /\ Len(h[a.o].es) = Len(h[b.o].es)
          /\ \A i \in 1..Len(h[a.o].es): Same(h, h[a.o].es[i], h[b.o].es[i])
  ELSE IF a.t = "bool" /\ b.t = "int" THEN b.i = (IF a.b THEN 1 ELSE 0)
  ELSE IF b.t = "bool" /\ a.t = "int" THEN a.i = (IF b.b THEN 1 ELSE 0)
  ELSE a = b
Truth(h, v) == CASE v.t = "int" -> v.i # 0
                 [] v.t = "str" -> v.s # ""
                 [] v.t = "bool" -> v.b
                 [] v.t = "none" -> FALSE
                 [] v.t = "ref" -> IF h[v.o].k \in {"list", "tuple", "dict"} THEN h[v.o].es # <<>>
                                   ELSE IF h[v.o].k = "range" THEN h[v.o].lo < h[v.o].hi ELSE TRUE
                 [] OTHER -> TRUE
Num(v) == v.t \in {"int", "bool"}
N(v) == IF v.t = "int" THEN v.i ELSE IF v.b THEN 1 ELSE 0
IsSeq(h, v) == v.t = "ref" /\ h[v.o].k \in {"list", "tuple"}
\* position of an index in a sequence, 0 if it is out of range
At(h, v, i) == LET n == Len(h[v.o].es)
                   j == IF i < 0 THEN n + i ELSE i IN
               IF j >= 0 /\ j < n THEN j + 1 ELSE 0
KeyAt(h, v, k) == LET ks == h[v.o].ks
                      is == {i \in 1..Len(ks): Same(h, ks[i], k)} IN
                  IF is = {} THEN 0 ELSE CHOOSE i \in is: TRUE
\* name of a member of a container in mem
MKey(h, v, i) == IF IsSeq(h, v) THEN ToString(At(h, v, N(i)) - 1) ELSE Repr(h, i)

\* ------------------------------------------------------------------ machine
(* task records: k is the kind, the other fields depend on it; the top is the last *)
Push(m, ts) == [m EXCEPT !.todo = Pop(@) \o ts]       \* replaces the current task by ts (top last)
Done(m) == [m EXCEPT !.todo = Pop(@)]
PushV(m, v, n) == [m EXCEPT !.vals = Append(@, [v |-> v, n |-> n])]
Act(m) == m.acts[m.cur]
\* calls below the depth limit are black boxes: what they store in a container is not seen
Seen(m) == Act(m).depth <= m.limit
RECURSIVE Union(_)
Union(ss) == IF ss = <<>> THEN {} ELSE ss[1] \cup Union(Tail(ss))
Conds(m) == Union(Act(m).conds)
Nth(m, node) == IF Has(Act(m).occ, node) THEN Act(m).occ[node] + 1 ELSE 1
KeyOf(m, node) == Act(m).key \o "/" \o ToString(node) \o "." \o ToString(Nth(m, node))
\* a new evaluation of a node in the current activation
EvRaw(m, node, text, deps) ==
  [m EXCEPT !.evs = Append(@, [key |-> KeyOf(m, node), act |-> m.cur, deps |-> deps, rep |-> text,
                               call |-> FALSE, ok |-> TRUE, par |-> FALSE]),
            !.acts[m.cur].occ = Set(@, node, Nth(m, node))]
Ev(m, node, v, deps) ==
  EvRaw(m, node, IF Plain(m.heap, v) THEN Repr(m.heap, v) ELSE "?", deps \cup Conds(m))
\* ... whose value is the next operand
EvV(m, node, v, deps) == LET m2 == Ev(m, node, v, deps) IN PushV(m2, v, Len(m2.evs))
New(m, o) == [m EXCEPT !.heap = Append(@, o), !.mem = Append(@, EmptyF)]
Last(m) == Ref(Len(m.heap))
Raise(m, c, args) ==
  LET m2 == New(m, [k |-> "exc", c |-> c, es |-> args]) IN
  [m2 EXCEPT !.jump = "exc", !.jv = Last(m2)]

\* variables: the scope chain of the current activation
RECURSIVE Scope(_, _, _)
Scope(m, a, x) == IF a = 0 THEN 0 ELSE IF Has(m.acts[a].env, x) THEN a ELSE Scope(m, m.acts[a].clo, x)
Bind(m, x, v, n) == [m EXCEPT !.acts[m.cur].env = Set(@, x, v), !.acts[m.cur].ctx = Set(@, x, n)]
\* builtins are evaluated once, outside any activation
GlobalEv(m, x) ==
  IF Has(m.glob, x) THEN m
  ELSE [m EXCEPT !.evs = Append(@, [key |-> "g:" \o x, act |-> 0, deps |-> {}, rep |-> "?",
                                    call |-> FALSE, ok |-> TRUE, par |-> FALSE]),
                 !.glob = Set(@, x, Len(m.evs) + 1)]

MemDep(m, v, k) == IF Has(m.mem[v.o], k) THEN {m.mem[v.o][k]} ELSE {}
Operate(m, op, a, b) ==    \* [ok, v, m]
  IF Num(a) /\ Num(b)
  THEN LET x == N(a)  y == N(b) IN
       IF op \in {"//", "%"} /\ y = 0 THEN [ok |-> FALSE, v |-> None, m |-> Raise(m, "ZeroDivisionError",
             <<Str(IF op = "//" THEN "integer division or modulo by zero" ELSE "integer modulo by zero")>>)]
       ELSE [ok |-> TRUE, m |-> m, v |->
         CASE op = "+" -> IntV(x + y) [] op = "-" -> IntV(x - y) [] op = "*" -> IntV(x * y)
           [] op = "//" -> IntV(IF y > 0 THEN x \div y ELSE (-x) \div (-y))
           [] op = "%" -> IntV(IF y > 0 THEN x % y ELSE x - y * ((-x) \div (-y)))]
  ELSE IF a.t = "str" /\ b.t = "str" /\ op = "+" THEN [ok |-> TRUE, m |-> m, v |-> Str(a.s \o b.s)]
  ELSE IF IsSeq(m.heap, a) /\ IsSeq(m.heap, b) /\ op = "+"
  THEN LET m2 == New(m, [k |-> m.heap[a.o].k, es |-> m.heap[a.o].es \o m.heap[b.o].es]) IN
       [ok |-> TRUE, m |-> m2, v |-> Last(m2)]
  ELSE [ok |-> FALSE, v |-> None, m |-> Raise(m, "TypeError", <<>>)]
Compare(h, op, a, b) ==
  CASE op = "==" -> Same(h, a, b) [] op = "!=" -> ~Same(h, a, b)
    [] op = "<" -> N(a) < N(b) [] op = "<=" -> N(a) <= N(b)
    [] op = ">" -> N(a) > N(b) [] op = ">=" -> N(a) >= N(b)
    [] op = "is" -> a = b
    [] op = "in" -> \E i \in 1..Len(h[b.o].es):
                      Same(h, (IF h[b.o].k = "dict" THEN h[b.o].ks ELSE h[b.o].es)[i], a)

\* evaluate expressions from left to right
Evals(es) == [i \in 1..Len(es) |-> [k |-> "e", e |-> es[Len(es) + 1 - i]]]
Ops(m, n) == SubSeq(m.vals, Len(m.vals) - n + 1, Len(m.vals))
Drop(m, n) == [m EXCEPT !.vals = Cut(@, Len(@) - n)]
Seqn(b) == [i \in 1..Len(b) |-> [k |-> "s", s |-> b[Len(b) + 1 - i]]]
PV(vs) == [i \in 1..Len(vs) |-> vs[i].v]
PN(vs) == {vs[i].n: i \in 1..Len(vs)} \ {0}

StepExpr(m, e) ==
  CASE e.k = "lit" -> EvV(Done(m), e.n, e.v, {})
    [] e.k = "name" ->
        LET a == Scope(m, m.cur, e.x) IN
        IF a # 0 THEN EvV(Done(m), e.n, m.acts[a].env[e.x],
                          IF m.acts[a].ctx[e.x] = 0 THEN {} ELSE {m.acts[a].ctx[e.x]})
        ELSE LET g == GlobalEv(Done(m), e.x) IN EvV(g, e.n, Fun(e.x), {g.glob[e.x]})
    [] e.k \in {"bin", "cmp"} -> Push(m, <<[k |-> "bin2", e |-> e]>> \o Evals(<<e.a, e.b>>))
    [] e.k \in {"not", "neg"} -> Push(m, <<[k |-> "un2", e |-> e], [k |-> "e", e |-> e.a]>>)
    [] e.k = "bool" -> Push(m, <<[k |-> "bool2", e |-> e], [k |-> "e", e |-> e.a]>>)
    [] e.k = "ife" -> Push(m, <<[k |-> "ife2", e |-> e], [k |-> "e", e |-> e.c]>>)
    [] e.k \in {"list", "tuple"} -> Push(m, <<[k |-> "seq2", e |-> e]>> \o Evals(e.es))
    [] e.k = "dict" -> Push(m, <<[k |-> "dict2", e |-> e]>> \o
          [i \in 1..(3 * Len(e.ks)) |->
             LET j == Len(e.ks) - ((i - 1) \div 3)  r == (i - 1) % 3 IN
             IF r = 0 THEN [k |-> "item2", n |-> e.is[j]]
             ELSE IF r = 1 THEN [k |-> "e", e |-> e.es[j]] ELSE [k |-> "e", e |-> e.ks[j]]])
    [] e.k = "sub" -> Push(m, <<[k |-> "sub2", e |-> e]>> \o Evals(<<e.a, e.i>>))
    [] e.k = "call" -> Push(m, <<[k |-> "call2", e |-> e]>> \o
          Evals(<<e.f>> \o [i \in 1..Len(e.args) |-> IF e.args[i].k = "star" THEN e.args[i].e ELSE e.args[i]] \o [i \in 1..Len(e.kws) |-> e.kws[i].e]))

\* a[i] of values, with the evaluation of the member
Fetch(m, e, a, i) ==
  LET h == m.heap IN
  IF IsSeq(h, a.v) THEN
     IF ~Num(i.v) THEN Raise(m, "TypeError", <<>>)
     ELSE LET j == At(h, a.v, N(i.v)) IN
       IF j = 0 THEN Raise(m, "IndexError", <<Str(h[a.v.o].k \o " index out of range")>>)
       ELSE EvV(m, e.n, h[a.v.o].es[j], {a.n, i.n} \cup MemDep(m, a.v, ToString(j - 1)))
  ELSE IF a.v.t = "ref" /\ h[a.v.o].k = "dict" THEN
     LET j == KeyAt(h, a.v, i.v) IN
     IF j = 0 THEN Raise(m, "KeyError", <<i.v>>)
     ELSE EvV(m, e.n, h[a.v.o].es[j], {a.n, i.n} \cup MemDep(m, a.v, Repr(h, i.v)))
  ELSE Raise(m, "TypeError", <<>>)

\* --------------------------------------------------------------- calls
(* an activation with its evaluation, which is completed when the call ends *)
StartCall(m, e, deps, clo, nm) ==
  LET node == e.n
      m2 == EvRaw(m, node, "?", deps)
      i == Len(m2.evs)
      m3 == [m2 EXCEPT !.evs[i].call = TRUE,
                       !.acts = Append(@, [key |-> m2.evs[i].key, up |-> m.cur, clo |-> clo, nm |-> nm,
                                           ev |-> i, depth |-> Act(m).depth + 1, conds |-> <<>>,
                                           env |-> EmptyF, ctx |-> EmptyF, occ |-> EmptyF,
                                           ps |-> EmptyF, def |-> clo # 0])]
  IN [m3 EXCEPT !.cur = Len(m3.acts)]
EndCall(m, v, deps, ok) ==
  LET i == Act(m).ev
      m2 == [m EXCEPT !.evs[i].rep = IF Plain(m.heap, v) THEN Repr(m.heap, v) ELSE "?",
                      !.evs[i].deps = @ \cup deps, !.evs[i].ok = ok, !.cur = Act(m).up] IN
  IF ok THEN PushV(m2, v, i) ELSE m2

Ints(es) == \A i \in 1..Len(es): Num(es[i])
RECURSIVE SumOf(_), MaxOf(_)
SumOf(es) == IF es = <<>> THEN 0 ELSE N(es[1]) + SumOf(Tail(es))
MaxOf(es) == IF Len(es) = 1 THEN N(es[1])
             ELSE LET r == MaxOf(Tail(es)) IN IF N(es[1]) > r THEN N(es[1]) ELSE r
\* a call of a builtin: [m, v]; m.jump is set if it raises
Builtin(m, f, vs) ==
  LET h == m.heap
      a == vs[1] IN
  CASE f = "print" -> [m |-> [m EXCEPT !.out = Append(@, Join([i \in 1..Len(vs) |-> Text(h, vs[i])], " "))],
                       v |-> None]
    [] f = "len" -> [m |-> m, v |-> IntV(Len(h[a.o].es))]
    [] f = "abs" -> [m |-> m, v |-> IntV(IF N(a) < 0 THEN -N(a) ELSE N(a))]
    [] f = "str" -> [m |-> m, v |-> Str(Text(h, a))]
    [] f = "sum" -> [m |-> m, v |-> IntV(SumOf(h[a.o].es))]
    [] f = "max" -> [m |-> m, v |-> IntV(MaxOf(h[a.o].es))]
    [] f = "range" -> LET m2 == New(m, [k |-> "range", lo |-> 0, hi |-> N(a)]) IN [m |-> m2, v |-> Last(m2)]
    [] f \in ExcClasses -> LET m2 == New(m, [k |-> "exc", c |-> f, es |-> vs]) IN [m |-> m2, v |-> Last(m2)]

\* bind the parameters of a function to the values of a call: positional parameters (pos) take
\* the first values, va takes the other ones, keywords fill pos and ko, and kw takes the others
DistinctN(es) == (UNION {{es[i].n, es[i].x}: i \in 1..Len(es)}) \ {0}
Parts(m, es, key(_)) ==     \* members of a new container (the last object) with the values es
  [m EXCEPT !.mem[Len(m.heap)] = [x \in {key(i): i \in {j \in 1..Len(es): es[j].p # 0}} |->
                                    es[CHOOSE i \in 1..Len(es): key(i) = x].p]]
ParamOf(m, fn, args, kws, i) ==        \* [m, v, deps]
  LET p == fn.ps[i]
      npos == Cardinality({j \in 1..Len(fn.ps): fn.ps[j].kd = "pos"})
      ks == {j \in 1..Len(kws): kws[j].key = p.x}
      one(o) == [m |-> m, v |-> o.v, deps |-> DistinctN(<<o>>)] IN
  CASE p.kd = "va" ->
        LET rest == SubSeq(args, npos + 1, Len(args))
            m2 == New(m, [k |-> "tuple", es |-> PV(rest)]) IN
        [m |-> Parts(m2, rest, LAMBDA j: ToString(j - 1)), v |-> Last(m2), deps |-> DistinctN(rest)]
    [] p.kd = "kw" ->
        LET free(kw) == ~\E j \in 1..Len(fn.ps): fn.ps[j].kd \in {"pos", "ko"} /\ fn.ps[j].x = kw.key
            rest == SelectSeq(kws, free)
            m2 == New(m, [k |-> "dict", es |-> PV(rest), ks |-> [j \in 1..Len(rest) |-> Str(rest[j].key)]]) IN
        [m |-> Parts(m2, rest, LAMBDA j: "'" \o rest[j].key \o "'"), v |-> Last(m2), deps |-> DistinctN(rest)]
    [] OTHER ->
        IF p.kd = "pos" /\ i <= Len(args) THEN one(args[i])
        ELSE IF ks # {} THEN one(kws[CHOOSE j \in ks: TRUE])
        ELSE one([v |-> fn.ds[p.d].v, n |-> fn.ds[p.d].n, x |-> 0])
RECURSIVE BindAll(_, _, _, _, _)
BindAll(m, fn, args, kws, i) ==
  IF i > Len(fn.ps) THEN m
  ELSE LET p == ParamOf(m, fn, args, kws, i)
           m2 == Ev(p.m, fn.ps[i].n, p.v, p.deps)
           m3 == Bind(m2, fn.ps[i].x, p.v, Len(m2.evs)) IN
       BindAll([m3 EXCEPT !.evs[Len(m3.evs)].par = TRUE, !.acts[m3.cur].ps = Set(@, fn.ps[i].x, m2.evs[Len(m2.evs)].rep)], fn, args, kws, i + 1)

\* the values of *x and **x are the ones of their elements, which depend on x and on the element;
\* n: the evaluation passed, x: the element of it, p: what is known about the value itself
RECURSIVE Spread(_, _, _), SpreadKw(_, _, _)
El(m, o, j, k) ==
  LET d == MemDep(m, o.v, k)  x == IF d = {} THEN 0 ELSE CHOOSE y \in d: TRUE IN
  [v |-> m.heap[o.v.o].es[j], n |-> o.n, x |-> x, p |-> x]
Spread(m, es, os) ==
  IF es = <<>> THEN <<>>
  ELSE (IF es[1].k # "star" THEN <<[v |-> os[1].v, n |-> os[1].n, x |-> 0, p |-> os[1].n]>>
        ELSE [i \in 1..Len(m.heap[os[1].v.o].es) |-> El(m, os[1], i, ToString(i - 1))])
       \o Spread(m, Tail(es), Tail(os))
SpreadKw(m, ks, os) ==
  IF ks = <<>> THEN <<>>
  ELSE (IF ks[1].x # "**" THEN <<[key |-> ks[1].x, v |-> os[1].v, n |-> os[1].n, x |-> 0, p |-> os[1].n]>>
        ELSE LET d == m.heap[os[1].v.o] IN
             [i \in 1..Len(d.es) |-> [key |-> d.ks[i].s] @@ El(m, os[1], i, Repr(m.heap, d.ks[i]))])
       \o SpreadKw(m, Tail(ks), Tail(os))

DoCall(m, e) ==
  LET na == Len(e.args)  nk == Len(e.kws)
      ops == Ops(m, 1 + na + nk)
      f == ops[1]
      args == Spread(m, e.args, SubSeq(ops, 2, 1 + na))
      kws == SpreadKw(m, e.kws, SubSeq(ops, 2 + na, 1 + na + nk))
      m1 == Drop(Done(m), 1 + na + nk)
      deps == PN(ops) IN
  IF f.v.t = "blt" THEN
     LET s == StartCall(m1, e, deps, 0, f.v.f)
         r == Builtin(s, f.v.f, PV(args)) IN
     EndCall(r.m, r.v, {}, TRUE)
  ELSE
     LET fn == m.heap[f.v.o]
         s == BindAll(StartCall(m1, e, deps, fn.clo, fn.x), fn, args, kws, 1) IN
     [s EXCEPT !.todo = @ \o <<[k |-> "end", nv |-> Len(s.vals)]>> \o Seqn(fn.b)]

\* --------------------------------------------------------------- assignments
\* assign value v, which depends on deps, to target t; o is the position of the operands of a target
RECURSIVE AssignTo(_, _, _, _, _)
NOps(t) == IF t.k = "tsub" THEN 2 ELSE 0
RECURSIVE SumN(_)
SumN(ts) == IF ts = <<>> THEN 0 ELSE NOps(ts[1]) + SumN(Tail(ts))
Put(m, a, i, v) ==     \* a[i] = v: the heap; jump is set if it raises
  LET h == m.heap IN
  IF a.t = "ref" /\ h[a.o].k = "list" THEN
     LET j == At(h, a, N(i)) IN
     IF j = 0 THEN Raise(m, "IndexError", <<Str("list assignment index out of range")>>)
     ELSE [m EXCEPT !.heap[a.o].es[j] = v]
  ELSE IF a.t = "ref" /\ h[a.o].k = "dict" THEN
     LET j == KeyAt(h, a, i) IN
     IF j = 0 THEN [m EXCEPT !.heap[a.o].ks = Append(@, i), !.heap[a.o].es = Append(@, v)]
     ELSE [m EXCEPT !.heap[a.o].es[j] = v]
  ELSE Raise(m, "TypeError", <<>>)
AssignTo(m, t, v, deps, ops) ==
  CASE t.k = "tname" -> LET m2 == Ev(m, t.n, v, deps) IN Bind(m2, t.x, v, Len(m2.evs))
    [] t.k = "tsub" ->
        LET a == ops[1]  i == ops[2]
            m1 == Put(m, a.v, i.v, v) IN
        IF m1.jump # "" THEN m1
        ELSE LET m2 == Ev(m1, t.n, v, deps \cup {a.n, i.n}) IN
             IF Seen(m2) THEN [m2 EXCEPT !.mem[a.v.o] = Set(@, MKey(m1.heap, a.v, i.v), Len(m2.evs))] ELSE m2
\* the parts of a value that is assigned to several targets: <<value, deps>>
PartDeps(m, v, n, i) ==
  LET k == ToString(i - 1) IN
  IF v.t = "ref" /\ Has(m.mem[v.o], k) THEN {m.mem[v.o][k]} ELSE IF n = 0 THEN {} ELSE {n}
RECURSIVE AssignEach(_, _, _, _, _)
AssignEach(m, ts, v, n, i) ==
  IF i > Len(ts) \/ m.jump # "" THEN m
  ELSE AssignEach(AssignTo(m, ts[i], m.heap[v.o].es[i], PartDeps(m, v, n, i), <<>>), ts, v, n, i + 1)

\* --------------------------------------------------------------- statements
StepStmt(m, s) ==
  CASE s.k = "expr" -> Push(m, <<[k |-> "drop"], [k |-> "e", e |-> s.e]>>)
    [] s.k = "assign" ->     \* the value first, then the operands of the target
        Push(m, <<[k |-> "asg2", s |-> s]>> \o
             (IF s.t.k = "tsub" THEN Evals(<<s.e, s.t.a, s.t.i>>) ELSE Evals(<<s.e>>)))
    [] s.k = "aug" ->
        \* the read of a name is only recorded once the operand is there
        IF s.t.k = "tname" THEN Push(m, <<[k |-> "aug2", s |-> s]>> \o Evals(<<s.e, s.r>>))
        ELSE Push(m, <<[k |-> "aug2", s |-> s]>> \o Evals(<<s.t.a, s.t.i>>)
                     \o <<>>)
    [] s.k = "if" -> Push(m, <<[k |-> "if2", s |-> s], [k |-> "e", e |-> s.c]>>)
    [] s.k = "while" -> Push(m, <<[k |-> "loop", nv |-> Len(m.vals), nc |-> Len(Act(m).conds)],
                                  [k |-> "while2", s |-> s], [k |-> "e", e |-> s.c]>>)
    [] s.k = "for" -> Push(m, <<[k |-> "for2", s |-> s], [k |-> "e", e |-> s.e]>>)
    [] s.k = "def" -> Push(m, <<[k |-> "def2", s |-> s]>> \o Evals(s.ds))
    [] s.k = "ret" -> Push(m, <<[k |-> "ret2"], [k |-> "e", e |-> s.e]>>)
    [] s.k = "ret0" -> [Done(m) EXCEPT !.jump = "ret", !.jv = None, !.jd = Conds(m)]
    [] s.k = "pass" -> Ev(Done(m), s.n, None, {})
    [] s.k = "brk" -> [Ev(Done(m), s.n, None, {}) EXCEPT !.jump = "brk"]
    [] s.k = "cnt" -> [Ev(Done(m), s.n, None, {}) EXCEPT !.jump = "cnt"]
    [] s.k = "raise" -> Raise(Done(m), s.x, PV(s.es))      \* its (literal) values are not recorded
    [] s.k = "try" -> Push(m, <<[k |-> "fin", s |-> s, nv |-> Len(m.vals), nc |-> Len(Act(m).conds)], [k |-> "catch", s |-> s, nv |-> Len(m.vals),
                                 nc |-> Len(Act(m).conds)]>> \o Seqn(s.b))

Cond(m, deps) == [m EXCEPT !.acts[m.cur].conds = Append(@, deps)]
UnCond(m, n) == [m EXCEPT !.acts[m.cur].conds = Cut(@, n)]
\* next element of a loop: [more, v, deps]
Elem(m, v, n, i) ==
  LET o == m.heap[v.o] IN
  IF o.k = "range" THEN [more |-> o.lo + i <= o.hi, v |-> IntV(o.lo + i - 1), deps |-> {n}]
  ELSE IF o.k = "dict" THEN [more |-> i <= Len(o.ks), v |-> IF i <= Len(o.ks) THEN o.ks[i] ELSE None, deps |-> {n}]
  ELSE [more |-> i <= Len(o.es), v |-> IF i <= Len(o.es) THEN o.es[i] ELSE None,
        deps |-> {n} \cup MemDep(m, v, ToString(i - 1))]

Cut2(m, n) == [m EXCEPT !.vals = Cut(@, n)]
StepTask(m, t) ==
  CASE t.k = "e" -> StepExpr(m, t.e)
    [] t.k = "s" -> StepStmt(m, t.s)
    [] t.k = "drop" -> Drop(Done(m), 1)
    [] t.k = "bin2" ->
        LET o == Ops(m, 2)
            d == Drop(Done(m), 2) IN
        IF t.e.k = "cmp" THEN EvV(d, t.e.n, Bool(Compare(m.heap, t.e.op, o[1].v, o[2].v)), PN(o))
        ELSE LET r == Operate(d, t.e.op, o[1].v, o[2].v) IN
             IF r.ok THEN EvV(r.m, t.e.n, r.v, PN(o)) ELSE r.m
    [] t.k = "un2" ->
        LET o == Ops(m, 1)
            d == Drop(Done(m), 1) IN
        EvV(d, t.e.n, IF t.e.k = "not" THEN Bool(~Truth(m.heap, o[1].v)) ELSE IntV(-N(o[1].v)), PN(o))
    [] t.k = "bool2" ->
        LET o == Top(m.vals)
            stop == IF t.e.op = "and" THEN ~Truth(m.heap, o.v) ELSE Truth(m.heap, o.v) IN
        IF stop THEN EvV(Drop(Done(m), 1), t.e.n, o.v, {o.n})
        ELSE Push(m, <<[k |-> "bool3", e |-> t.e], [k |-> "e", e |-> t.e.b]>>)
    [] t.k = "bool3" -> LET o == Ops(m, 2) IN EvV(Drop(Done(m), 2), t.e.n, o[2].v, PN(o))
    [] t.k = "ife2" ->
        LET o == Top(m.vals)
            d == Cond(Drop(m, 1), {o.n} \cup Conds(m)) IN
        Push(d, <<[k |-> "ife3", e |-> t.e, nc |-> Len(Act(m).conds)],
                  [k |-> "e", e |-> IF Truth(m.heap, o.v) THEN t.e.a ELSE t.e.b]>>)
    [] t.k = "ife3" -> LET o == Top(m.vals) IN UnCond(EvV(Drop(Done(m), 1), t.e.n, o.v, {o.n}), t.nc)
    [] t.k = "seq2" ->
        LET n == Len(t.e.es)
            o == Ops(m, n)
            m2 == New(Drop(Done(m), n), [k |-> t.e.k, es |-> PV(o)])
            m3 == EvV(m2, t.e.n, Last(m2), PN(o)) IN
        [m3 EXCEPT !.mem[Len(m2.heap)] = [x \in {ToString(i - 1): i \in 1..n} |->
                                           (CHOOSE p \in {[i |-> ToString(j - 1), n |-> o[j].n]: j \in 1..n}: p.i = x).n]]
    [] t.k = "item2" ->    \* an item of a dictionary: the value depends on its key
        LET o == Ops(m, 2)
            m2 == Ev(Done(m), t.n, o[2].v, PN(o)) IN
        [m2 EXCEPT !.vals[Len(m2.vals)].n = Len(m2.evs)]
    [] t.k = "dict2" ->
        LET n == Len(t.e.ks)
            o == Ops(m, 2 * n)
            ks == [i \in 1..n |-> o[2 * i - 1].v]
            m2 == New(Drop(Done(m), 2 * n), [k |-> "dict", ks |-> ks, es |-> [i \in 1..n |-> o[2 * i].v]])
            m3 == EvV(m2, t.e.n, Last(m2), {o[2 * i].n: i \in 1..n}) IN
        [m3 EXCEPT !.mem[Len(m2.heap)] = [x \in {Repr(m.heap, ks[i]): i \in 1..n} |->
                      o[2 * (CHOOSE i \in 1..n: Repr(m.heap, ks[i]) = x)].n]]
    [] t.k = "sub2" -> LET o == Ops(m, 2) IN Fetch(Drop(Done(m), 2), t.e, o[1], o[2])
    [] t.k = "call2" -> DoCall(m, t.e)
    [] t.k = "asg2" ->
        LET s == t.s IN
        IF s.t.k = "tsub" THEN LET o == Ops(m, 3) IN
           AssignTo(Drop(Done(m), 3), s.t, o[1].v, {o[1].n}, <<o[2], o[3]>>)
        ELSE IF s.t.k = "ttuple" THEN LET o == Ops(m, 1) IN
           LET d == Drop(Done(m), 1)
               want == Len(s.t.ts) IN
           IF ~IsSeq(m.heap, o[1].v) THEN Raise(d, "TypeError", <<>>)
           ELSE LET got == Len(m.heap[o[1].v.o].es) IN
             IF got > want THEN Raise(d, "ValueError", <<Str("too many values to unpack (expected " \o ToString(want) \o ")")>>)
             ELSE IF got < want THEN Raise(d, "ValueError",
                 <<Str("not enough values to unpack (expected " \o ToString(want) \o ", got " \o ToString(got) \o ")")>>)
             ELSE AssignEach(d, s.t.ts, o[1].v, o[1].n, 1)
        ELSE LET o == Ops(m, 1) IN AssignTo(Drop(Done(m), 1), s.t, o[1].v, {o[1].n}, <<>>)
    [] t.k = "aug2" ->
        LET s == t.s IN
        IF s.t.k = "tname" THEN
           LET o == Ops(m, 2)
               r == Operate(Drop(Done(m), 2), s.op, o[2].v, o[1].v) IN
           IF r.ok THEN AssignTo(r.m, s.t, r.v, PN(o), <<>>) ELSE r.m
        ELSE   \* the member is read (keeping container and index), then the operand
           LET o == Ops(m, 2)
               f == Fetch(Done(m), s.r, o[1], o[2]) IN
           IF f.jump # "" THEN f
           ELSE [f EXCEPT !.todo = @ \o <<[k |-> "aug3", s |-> s,
                    part |-> MemDep(m, o[1].v, MKey(m.heap, o[1].v, o[2].v))], [k |-> "e", e |-> s.e]>>]
    [] t.k = "aug3" ->
        LET o == Ops(m, 4)
            r == Operate(Drop(Done(m), 4), t.s.op, o[3].v, o[4].v) IN
        IF r.ok THEN AssignTo(r.m, t.s.t, r.v, {o[3].n, o[4].n} \cup t.part, <<o[1], o[2]>>) ELSE r.m
    [] t.k = "if2" ->
        LET o == Top(m.vals)
            d == Cond(Drop(m, 1), {o.n}) IN
        Push(d, <<[k |-> "endif", nc |-> Len(Act(m).conds)]>> \o
                Seqn(IF Truth(m.heap, o.v) THEN t.s.b ELSE t.s.o))
    [] t.k = "endif" -> UnCond(Done(m), t.nc)
    [] t.k = "while2" ->
        LET o == Top(m.vals)
            d == Drop(m, 1) IN
        IF Truth(m.heap, o.v)
        THEN Push(Cond(d, {o.n}), <<[k |-> "while3", s |-> t.s, nc |-> Len(Act(m).conds)]>> \o Seqn(t.s.b))
        ELSE Done(d)
    [] t.k = "while3" -> Push(UnCond(m, t.nc), <<[k |-> "while2", s |-> t.s], [k |-> "e", e |-> t.s.c]>>)
    [] t.k = "loop" -> Done(m)
    [] t.k = "for2" ->
        LET o == Top(m.vals) IN
        Push(Drop(m, 1), <<[k |-> "loop", nv |-> Len(m.vals) - 1, nc |-> Len(Act(m).conds)],
                           [k |-> "for3", s |-> t.s, v |-> o.v, n |-> o.n, i |-> 1]>>)
    [] t.k = "for3" ->
        LET x == Elem(m, t.v, t.n, t.i) IN
        IF ~x.more THEN Done(m)
        ELSE LET m2 == AssignTo(m, t.s.t, x.v, x.deps, <<>>) IN
             Push(m2, <<[t EXCEPT !.i = @ + 1]>> \o Seqn(t.s.b))
    [] t.k = "def2" ->
        LET s == t.s  n == Len(s.ds)
            o == Ops(m, n)
            m2 == New(Drop(Done(m), n), [k |-> "fun", x |-> s.x, ps |-> s.ps, ds |-> o, b |-> s.b, clo |-> m.cur])
            m3 == Ev(m2, s.n, Last(m2), {}) IN
        Bind(m3, s.x, Last(m2), Len(m3.evs))
    [] t.k = "ret2" -> LET o == Top(m.vals) IN
        [Drop(Done(m), 1) EXCEPT !.jump = "ret", !.jv = o.v, !.jd = {o.n} \cup Conds(m)]
    [] t.k = "catch" -> Push(m, Seqn(t.s.o))             \* no exception: the else part
    [] t.k = "fin" -> Push(m, Seqn(t.s.f))
    [] t.k = "refin" -> [Done(m) EXCEPT !.jump = t.jump, !.jv = t.jv, !.jd = t.jd]
    [] t.k = "unbind" -> [Done(m) EXCEPT !.acts[m.cur].env = [x \in DOMAIN @ \ {t.x} |-> @[x]]]
    [] t.k = "end" -> EndCall(Cut2(Done(m), t.nv), None, {}, TRUE)   \* fell off the end

Catches(c, name) == c = name \/ c = "Exception" \/ c = ""
\* an exception, return, break or continue looks for the task that takes it
Unwind(m) ==
  LET t == Top(m.todo)
      clear == [m EXCEPT !.jump = ""] IN
  CASE t.k = "end" /\ m.jump \in {"ret", "exc"} ->
        IF m.jump = "ret" THEN EndCall(Cut2([Done(clear) EXCEPT !.jd = {}], t.nv), m.jv, m.jd, TRUE)
        ELSE EndCall(Done(Cut2(m, t.nv)), None, {}, FALSE)
    [] t.k = "loop" /\ m.jump = "brk" -> UnCond(Cut2(Done(clear), t.nv), t.nc)
    [] t.k \in {"for3", "while3"} /\ m.jump = "cnt" ->
        IF t.k = "while3" THEN clear
        ELSE UnCond(clear, LET l == m.todo[Len(m.todo) - 1] IN l.nc)
    [] t.k = "catch" /\ m.jump = "exc" /\ Catches(t.s.c, m.heap[m.jv.o].c) ->
        LET m1 == UnCond(Cut2(clear, t.nv), t.nc)
            m2 == Ev(m1, t.s.n, m.jv, {})
            m3 == IF t.s.x = "" THEN m2 ELSE Bind(m2, t.s.x, m.jv, Len(m2.evs)) IN
        Push(m3, (IF t.s.x = "" THEN <<>> ELSE <<[k |-> "unbind", x |-> t.s.x]>>) \o Seqn(t.s.h))
    [] t.k = "fin" /\ t.s.f # <<>> ->
        Push(UnCond(Cut2(clear, t.nv), t.nc), <<[k |-> "refin", jump |-> m.jump, jv |-> m.jv, jd |-> m.jd]>> \o Seqn(t.s.f))
    [] OTHER -> [m EXCEPT !.todo = Pop(@)]

Start(prog, limit) ==
  [limit |-> limit, todo |-> Seqn(prog), vals |-> <<>>, heap |-> <<>>, mem |-> <<>>, out |-> <<>>, glob |-> EmptyF,
   evs |-> <<[key |-> "0", act |-> 0, deps |-> {}, rep |-> "?", call |-> TRUE, ok |-> TRUE, par |-> FALSE]>>,
   acts |-> <<[key |-> "0", up |-> 0, clo |-> 0, nm |-> "__main__", ev |-> 1, depth |-> 1, conds |-> <<>>,
               env |-> EmptyF, ctx |-> EmptyF, occ |-> EmptyF, ps |-> EmptyF, def |-> TRUE]>>,
   cur |-> 1, jump |-> "", jv |-> None, jd |-> {}]
Over(m) == m.todo = <<>>

(* What every state of the machine guarantees about the provenance it has gathered: the
   activations are a tree rooted at the script in which callers are older than what they call,
   every evaluation belongs to an activation, names are unique, and a value depends on values
   that were there before it, or, for a call, that its own activation computed *)
ActOfEv(m, i) == CHOOSE a \in 1..Len(m.acts): m.acts[a].ev = i
RECURSIVE Below(_, _, _)
Below(m, a, b) == a = b \/ (a # 0 /\ Below(m, m.acts[a].up, b))
WellFormed(m) ==
  /\ \A a \in 1..Len(m.acts): /\ m.acts[a].up < a /\ (m.acts[a].up = 0) = (a = 1)
                               /\ m.evs[m.acts[a].ev].act = m.acts[a].up
                               /\ m.acts[a].depth = (IF a = 1 THEN 1 ELSE m.acts[m.acts[a].up].depth + 1)
  /\ \A i \in 1..Len(m.evs): \A d \in m.evs[i].deps:
       /\ d \in 1..Len(m.evs)
       /\ d < i \/ (m.evs[i].call /\ Below(m, m.evs[d].act, ActOfEv(m, i)))
  /\ Cardinality({m.evs[i].key: i \in 1..Len(m.evs)}) = Len(m.evs)
Step(m) == IF m.jump # "" THEN Unwind(m) ELSE StepTask(m, Top(m.todo))
=============================================================================
