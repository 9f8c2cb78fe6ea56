------------------------------- MODULE GenTrace ------------------------------
(* Trace validation against SalabimGen (see CoreTrace); the events list    *)
(* complete observations, or none.                                             *)
EXTENDS SalabimGen, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, S
vars == <<tid, i, S>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ S = InitState(Traces[tid].g)
Diff(y, b) == {f \in DOMAIN b : b[f] # y[f]}
Report(n, kind, what, exp) == PrintT(<<"FAIL", Traces[tid].id, n, kind, ToJson(what), ToJson(exp)>>)

Next ==
  /\ i >= 0
  /\ i < Len(Traces[tid].ev)
  /\ tid' = tid
  /\ LET e == Traces[tid].ev[i + 1]
         T == Apply(S, e.o)
         y == Obs(T)
         d == Diff(y, e.b)
         p == StateViolations(T) \cup StepViolations(S, e.o, T)
     IN /\ S' = T
        /\ IF d # {} THEN i' = -1 /\ Report(i + 1, "conformance", [f \in d |-> y[f]], e.o)
           ELSE IF p # {} THEN i' = -1 /\ Report(i + 1, "property", p, e.o)
           ELSE i' = i + 1

InitOk == i = 0 => LET d == Diff(Obs(S), Traces[tid].b)
                   IN d = {} \/ Report(0, "conformance", [f \in d |-> Obs(S)[f]], [op |-> "init"])
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
Done == PrintT(<<"DONE", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
