-------------------------------- MODULE MCQueue --------------------------------
(* Exhaustive exploration of SalabimQueue for small scenarios (see MCCore).     *)
EXTENDS SalabimQueue, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

Q(cap) == [cap |-> cap, on |-> TRUE]
Adv(d) == [op |-> "adv", d |-> d]
En(q, c, p) == [op |-> "enter", q |-> q, c |-> c, p |-> p]
O2(o, q, c) == [op |-> o, q |-> q, c |-> c]
O3(o, q, c, x) == [op |-> o, q |-> q, c |-> c, x |-> x]
Ins(q, i, c) == [op |-> "insert", q |-> q, i |-> i, c |-> c]
Prio(q, c, p) == [op |-> "prio", q |-> q, c |-> c, p |-> p]
Pop(q, i) == [op |-> "pop", q |-> q, i |-> i]
Copy(q, cc, mv) == [op |-> "copy", q |-> q, cc |-> cc, mv |-> mv, on |-> TRUE]
SetOp(k, q, r) == [op |-> "setop", k |-> k, q |-> q, r |-> r, on |-> FALSE]
Ext(q, src, clear) == [op |-> "extend", q |-> q, src |-> src, cs |-> <<>>, clear |-> clear]
Next1(it) == [op |-> "next", it |-> it]
B == {TRUE, FALSE}

Scenario ==
  CASE Scn = "order" -> [g |-> [n |-> 4, qs |-> <<Q(INF)>>], pre |-> <<En(1, 1, 0), En(1, 2, 1)>>]
    [] Scn = "stats" -> [g |-> [n |-> 2, qs |-> <<Q(INF)>>], pre |-> <<>>]
    [] Scn = "cap" -> [g |-> [n |-> 3, qs |-> <<Q(2), Q(INF)>>], pre |-> <<En(2, 1, 1), En(2, 2, 2), En(2, 3, 3)>>]
    [] Scn = "sets" -> [g |-> [n |-> 4, qs |-> <<Q(INF), Q(3)>>], pre |-> <<En(1, 1, 2), En(1, 2, 1), En(2, 2, 5), En(2, 3, 5)>>]
    [] Scn = "iter" -> [g |-> [n |-> 4, qs |-> <<Q(INF)>>],
                        pre |-> <<En(1, 1, 0), En(1, 2, 1), En(1, 3, 1), [op |-> "iter", q |-> 1, rev |-> FALSE], [op |-> "iter", q |-> 1, rev |-> TRUE]>>]

C(T) == 1..T.n
Ops(T) ==
  CASE Scn = "order" ->
         {En(1, c, p) : c \in C(T), p \in {NONE, 0, 1, 2}} \cup {O2("athead", 1, c) : c \in {1, 3}} \cup {O2("leave", 1, c) : c \in C(T)}
         \cup {O3(o, 1, c, x) : o \in {"front", "behind"}, c \in {3, 4}, x \in {1, 2}}
         \cup {Ins(1, i, 3) : i \in {-1, 0, 1, 2, 3}} \cup {Prio(1, c, p) : c \in {1, 2}, p \in {0, 1, 2}} \cup {Pop(1, i) : i \in {NONE, -1, 1}}
    [] Scn = "stats" ->
         {Adv(d) : d \in {1, 2}} \cup {En(1, c, NONE) : c \in C(T)} \cup {O2("leave", 1, c) : c \in C(T)} \cup {[op |-> "mon", q |-> 1, b |-> b] : b \in B}
         \cup {[op |-> "resetmon", q |-> 1, b |-> b] : b \in {NONE, 0, 1}} \cup {[op |-> "clear", q |-> 1], [op |-> "arrreset", q |-> 1], [op |-> "depreset", q |-> 1]}
         \cup {Prio(1, 1, 1), [op |-> "resetnow", t |-> 1]}
    [] Scn = "cap" ->
         {En(1, c, p) : c \in C(T), p \in {NONE, 1}} \cup {O2("leave", 1, c) : c \in C(T)} \cup {[op |-> "setcap", q |-> 1, v |-> v] : v \in {0, 1, 3, INF}}
         \cup {Ext(1, 2, b) : b \in B} \cup {O2("athead", 1, 3), Ins(1, 0, 2), Adv(1)} \cup {[op |-> "leaveall", c |-> c] : c \in {1, 2}}
    [] Scn = "sets" ->
         (IF Len(T.qs) < 4 THEN {SetOp(k, q, 3 - q) : k \in {"union", "intersection", "difference", "symmetric_difference"}, q \in {1, 2}}
                                \cup {Copy(q, cc, mv) : q \in {1, 2}, cc \in B, mv \in B} ELSE {})
         \cup {Ext(q, 3 - q, b) : q \in {1, 2}, b \in B} \cup {En(1, 3, 1), En(2, 1, NONE), O2("leave", 1, 2), [op |-> "leaveall", c |-> 2]}
         \cup {[op |-> "delslice", q |-> 1, a |-> a, b |-> NONE, k |-> k] : a \in {NONE, -1, 1}, k \in {NONE, 2}}
    [] Scn = "iter" ->
         {Next1(1), Next1(2)} \cup {En(1, c, p) : c \in C(T), p \in {NONE, 0}} \cup {O2("leave", 1, c) : c \in C(T)} \cup {Prio(1, c, p) : c \in {1, 3}, p \in {0, 1}}

RECURSIVE Play(_, _)
Play(T, ops) == IF ops = <<>> THEN T ELSE Play(Apply(T, ops[1]), Tail(ops))

Init ==
  /\ S = Play(InitState(Scenario.g), Scenario.pre)
  /\ h = Scenario.pre
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Len(Scenario.pre) + Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T)
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars
\* entry ids only matter relative to the iterations
NormId(q, T) == [i \in 1..Len(q.m) |-> <<q.m[i][1], q.m[i][2], q.m[i][3], [j \in 1..Len(T.its) |-> q.m[i][4] \in T.its[j].seen]>>]
View == <<[S EXCEPT !.err = "", !.ans = <<>>, !.eid = 0, !.qs = [k \in 1..Len(S.qs) |-> [S.qs[k] EXCEPT !.m = NormId(S.qs[k], S)]],
           !.its = [j \in 1..Len(S.its) |-> [S.its[j] EXCEPT !.seen = {}]]], Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
