--------------------------------- MODULE MCMon ---------------------------------
(* Exhaustive exploration of SalabimMonitor for small scenarios (see MCCore).   *)
EXTENDS SalabimMonitor, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

D(lv, so, ty) == [lv |-> lv, so |-> so, on |-> TRUE, init |-> 0, ty |-> ty, fill |-> <<>>]
Adv(d) == [op |-> "adv", d |-> d]
Tally(m, v, w) == [op |-> "tally", m |-> m, v |-> v, w |-> w]
Mon(m, b) == [op |-> "mon", m |-> m, b |-> b]
Reset(m, b, s) == [op |-> "reset", m |-> m, b |-> b, s |-> s]
Slice(m, a, b, k) == [op |-> "slice", m |-> m, a |-> a, b |-> b, k |-> k]
Merge(ms) == [op |-> "merge", ms |-> ms]
One(o, m) == [op |-> o, m |-> m]
ResetNow(t) == [op |-> "resetnow", t |-> t]
B == {TRUE, FALSE}

Scenario ==
  CASE Scn = "level" -> [g |-> [ms |-> <<D(TRUE, FALSE, "any")>>], pre |-> <<>>]
    [] Scn = "levelso" -> [g |-> [ms |-> <<D(TRUE, TRUE, "any")>>], pre |-> <<>>]
    [] Scn = "tally" -> [g |-> [ms |-> <<D(FALSE, FALSE, "float")>>], pre |-> <<>>]
    [] Scn = "tallyso" -> [g |-> [ms |-> <<D(FALSE, TRUE, "any")>>], pre |-> <<>>]
    [] Scn = "slice" -> [g |-> [ms |-> <<D(TRUE, FALSE, "int8")>>], pre |-> <<Adv(2), Tally(1, 3, 1), Adv(3)>>]
    [] Scn = "nslice" -> [g |-> [ms |-> <<D(FALSE, FALSE, "any")>>], pre |-> <<Tally(1, 1, 2), Adv(2), Tally(1, 2, 1), Adv(1), Tally(1, 3, 1)>>]
    [] Scn = "merge" -> [g |-> [ms |-> <<D(TRUE, FALSE, "any"), D(TRUE, FALSE, "int32")>>], pre |-> <<>>]
    [] Scn = "nmerge" -> [g |-> [ms |-> <<D(FALSE, FALSE, "any"), D(FALSE, FALSE, "any")>>], pre |-> <<>>]

LastM(T) == Len(T.ms)
Room(T, n) == Len(T.ms) < n

Ops(T) ==
  CASE Scn \in {"level", "levelso"} ->
         {Adv(d) : d \in {1, 2}} \cup {Tally(1, v, 1) : v \in {0, 1, 3, 1001}} \cup {Mon(1, b) : b \in B}
         \cup {Reset(1, NONE, NONE), Reset(1, 0, NONE), Reset(1, NONE, IF T.ms[1].so THEN 0 ELSE 1)}
    [] Scn \in {"tally", "tallyso"} ->
         {Tally(1, v, w) : v \in {-1, 0, 2, 5}, w \in {1, 2}} \cup {Mon(1, b) : b \in B} \cup {Reset(1, NONE, NONE)}
         \cup (IF Scn = "tally" /\ Room(T, 2) THEN {[One("mul", 1) EXCEPT !.op = "mul"] @@ [k |-> 2]} ELSE {})
    [] Scn = "slice" ->
         (IF Room(T, 3) THEN {Slice(LastM(T), a, b, NONE) : a \in {NONE, 1, 2, 4, 7}, b \in {NONE, 2, 3, 5, 9}}
                             \cup {Slice(LastM(T), a, a + l, 3) : a \in {0, 1, 2, 5}, l \in {1, 2}} \cup {One("freeze", 1)} ELSE {})
         \cup {Adv(1), Tally(1, 3, 1), Tally(1, 0, 1), Mon(1, FALSE), Mon(1, TRUE), ResetNow(1)}
    [] Scn = "nslice" ->
         (IF Room(T, 3) THEN {Slice(LastM(T), a, b, NONE) : a \in {NONE, 0, 2, 3}, b \in {NONE, 2, 3, 9}}
                             \cup {Slice(LastM(T), a, a + l, 3) : a \in {0, 1, 2, 5}, l \in {1, 2}} ELSE {})
         \cup {Adv(1), Tally(1, 4, 3), ResetNow(1)}
    [] Scn = "merge" ->
         (IF Room(T, 4) THEN {Merge(ms) : ms \in {<<1, 2>>, <<2, 1>>, <<1, LastM(T)>>}} \cup {[op |-> "xmap", ms |-> <<1, 2>>]} ELSE {})
         \cup {Adv(1), Tally(1, 1, 1), Tally(2, 2, 1), Tally(1, 0, 1), Mon(1, FALSE), Mon(2, FALSE), Mon(2, TRUE), Reset(1, NONE, NONE)}
    [] Scn = "nmerge" ->
         (IF Room(T, 4) THEN {Merge(ms) : ms \in {<<1, 2>>, <<2, 1>>, <<1, LastM(T)>>}} \cup {[op |-> "xmap", ms |-> <<1>>]} ELSE {})
         \cup {Adv(1), Tally(1, 1, 1), Tally(1, 2, 2), Tally(2, 3, 1), Tally(2, 0, 3)}

RECURSIVE Play(_, _)
Play(T, ops) == IF ops = <<>> THEN T ELSE Play(Apply(T, ops[1]), Tail(ops))

Init ==
  /\ S = Play(InitState(Scenario.g), Scenario.pre)
  /\ h = Scenario.pre
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Len(Scenario.pre) + Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T)
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars
View == <<[S EXCEPT !.err = "", !.ans = <<>>], Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
