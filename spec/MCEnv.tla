-------------------------------- MODULE MCEnv --------------------------------
(* Exhaustive exploration of SalabimEnv for small scenarios (see MCCore).       *)
EXTENDS SalabimEnv, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

Env(u, z, d) == [op |-> "newenv", u |-> u, z |-> z, def |-> d]
Comp(e, at, d) == [op |-> "comp", e |-> e, at |-> at, delay |-> d]
Obj(e, k, c, n) == [op |-> "obj", e |-> e, k |-> k, cls |-> c, nm |-> n, a |-> 0]
Conv(e, u, n) == [op |-> "conv", e |-> e, u |-> u, n |-> n]

Scenario ==
  CASE Scn = "clock" -> [g |-> [x |-> 0], pre |-> <<Env("minutes", 762220740, TRUE)>>]        \* 2024-02-25 23:59
    [] Scn = "two" -> [g |-> [x |-> 0], pre |-> <<Env("seconds", NONE, TRUE), Env("hours", 3600, FALSE)>>]
    [] Scn = "units" -> [g |-> [x |-> 0], pre |-> <<>>]
    [] Scn = "names" -> [g |-> [x |-> 0], pre |-> <<Env("n/a", NONE, TRUE), Env("n/a", NONE, FALSE)>>]

Shown(T, i) == T.es[i].now - T.es[i].off
Fits(u, w) == LET a == Mul(Sec(u), Inv(Sec(w))) IN a[1] < 100000000 /\ a[2] < 100000000
(* pairs of units whose ratio can be expressed in TLC's integers *)
Long == {"years", "weeks", "days", "hours", "minutes"}
Small(u, w) == \/ {u, w} \cap Long = {}
               \/ {u, w} \cap {"milliseconds", "microseconds"} = {}
               \/ "milliseconds" \in {u, w} /\ {u, w} \cap {"hours", "minutes", "days"} # {}

Ops(T) ==
  CASE Scn = "clock" ->
         {[op |-> "run", e |-> 1, k |-> "dur", v |-> v] : v \in {0, 90, 86400 * 4}}
         \cup {[op |-> "run", e |-> 1, k |-> "till", v |-> Shown(T, 1) + v] : v \in {60, 86400 * 400}}
         \cup {[op |-> "runall", e |-> 1]}
         \cup {[op |-> "resetnow", e |-> 1, v |-> v] : v \in {0, 3600}}
         \cup {[op |-> "setdate", e |-> 1, z |-> z] : z \in {NONE, 0, 825465599}}
         \cup (IF Len(T.cs) > 1 THEN {} ELSE {Comp(1, a, d) : a \in {NONE, Shown(T, 1), Shown(T, 1) + 120}, d \in {NONE, 60}})
         \cup {[op |-> "text", e |-> 1, v |-> 90061 * 60], [op |-> "text", e |-> 1, v |-> 3661], [op |-> "dates", e |-> 1, v |-> 86400 * 30]}
    [] Scn = "two" ->
         UNION {{[op |-> "run", e |-> i, k |-> "dur", v |-> 1800], [op |-> "runall", e |-> i], [op |-> "resetnow", e |-> i, v |-> 3600],
                 [op |-> "setdate", e |-> i, z |-> 951782400], Conv(i, "minutes", 90), Obj(i, "queue", "queue", "")}
                \cup (IF Len(T.cs) > 2 THEN {} ELSE {Comp(i, Shown(T, i) + 1800, NONE), Comp(i, NONE, 3600)}) : i \in 1..2}
         \cup (IF Len(T.es) > 2 THEN {} ELSE {Env("days", NONE, TRUE)})
    [] Scn = "units" ->
         IF Len(T.es) = 0 THEN {Env(u, NONE, TRUE) : u \in ToSet(Units) \cup {"n/a"}} \cup {Env("n/a", 0, TRUE)}
         ELSE {Conv(1, u, n) : u \in {x \in ToSet(Units) : Small(x, T.es[1].u)}, n \in {0, 1, 7, 14}}
              \cup {[op |-> "text", e |-> 1, v |-> v] : v \in {x \in {0, 60, 5400, 86400, 31536000, 90061} : (T.es[1].u \in {"milliseconds", "microseconds"} => x < 1000) /\ Representable(x, T.es[1])}}
              \cup {[op |-> "setdate", e |-> 1, z |-> 1000]}
    [] Scn = "names" ->
         {Obj(i, k, c, n) : i \in 1..2, k \in {"component"}, c \in {"component", "car"}, n \in {"", "x", "x.", "x,", ".", ","}}
         \cup {Obj(1, k, k, n) : k \in {"queue", "store", "resource", "state", "monitor"}, n \in {"", "x.", "y"}}
         \cup (IF Len(T.os) = 0 THEN {} ELSE {[op |-> "rename", i |-> Len(T.os), nm |-> "new"]})

RECURSIVE Play(_, _)
Play(T, ops) == IF ops = <<>> THEN T ELSE Play(Apply(T, ops[1]), Tail(ops))

Init ==
  /\ S = Play(InitState(Scenario.g), Scenario.pre)
  /\ h = Scenario.pre
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Len(Scenario.pre) + Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T)
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars
View == <<[S EXCEPT !.err = "", !.r = <<>>], Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
