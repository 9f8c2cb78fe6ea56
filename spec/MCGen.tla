-------------------------------- MODULE MCGen --------------------------------
(* Exhaustive exploration of SalabimGen for small scenarios (see MCCore).       *)
EXTENDS SalabimGen, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

Adv(d) == [op |-> "adv", d |-> d]
Reset(t) == [op |-> "resetnow", t |-> t]
Cancel(g) == [op |-> "cancel", g |-> g]
Gen(k) == [op |-> "gen", k |-> k, at |-> NONE, delay |-> NONE, till |-> NONE, dur |-> NONE, num |-> NONE,
           iats |-> <<2>>, ds |-> <<>>, fa |-> FALSE, ft |-> FALSE, us |-> <<3>>, ms |-> <<>>]
B == {TRUE, FALSE}

Scenario ==
  CASE Scn = "iat" -> [g |-> [x |-> 0], pre |-> <<>>]
    [] Scn = "spread" -> [g |-> [x |-> 0], pre |-> <<>>]

Common(T) == {Adv(0), Adv(1), Adv(3), Reset(0), Reset(7)} \cup {Cancel(i) : i \in 1..Len(T.gs)}
Ops(T) == Common(T) \cup
  IF Len(T.gs) > 0 THEN {}
  ELSE CASE Scn = "iat" ->
         {[Gen("iat") EXCEPT !.num = n, !.till = t, !.fa = f, !.iats = i, !.ds = d] :
            n \in {NONE, 0, 1, 2}, t \in {NONE, T.now - T.off + 3, T.now - T.off + 4}, f \in B, i \in {<<2>>, <<1, 2>>}, d \in {<<>>, <<1, 0>>}}
         \cup {[Gen("iat") EXCEPT !.delay = 1, !.dur = 2, !.fa = f, !.iats = i] : f \in B, i \in {<<1>>, <<2>>, <<3>>}}
         \cup {[Gen("iat") EXCEPT !.at = T.now - T.off + a, !.num = 2] : a \in {-1, 0, 1}}
         \cup {[Gen("iat") EXCEPT !.iats = <<3>>, !.ds = <<-2, 1>>, !.dur = d, !.fa = FALSE] : d \in {2, 4}}
    [] Scn = "spread" ->
         {[Gen("equi") EXCEPT !.num = n, !.dur = d, !.delay = e] : n \in {1, 2, 3}, d \in {0, 2, 4}, e \in {NONE, 1}}
         \cup {[Gen("spread") EXCEPT !.num = n, !.dur = d, !.fa = f, !.ft = l, !.us = <<5, 3>>, !.delay = 2] :
                  n \in {NONE, 0, 1, 2}, d \in {NONE, 8}, f \in B, l \in B}
         \cup {[Gen("spread") EXCEPT !.num = n, !.till = T.now - T.off + 8, !.us = <<6, 2, 4>>] : n \in {1, 3}}
         \cup {[Gen("moments") EXCEPT !.ms = [i \in 1..Len(m) |-> m[i] + T.now - T.off]] : m \in {<<0>>, <<3, 1>>, <<2, 2, 1>>, <<-1, 2>>}}

RECURSIVE Play(_, _)
Play(T, ops) == IF ops = <<>> THEN T ELSE Play(Apply(T, ops[1]), Tail(ops))

Init ==
  /\ S = Play(InitState(Scenario.g), Scenario.pre)
  /\ h = Scenario.pre
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Len(Scenario.pre) + Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T)
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars
View == <<[S EXCEPT !.err = ""], Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
