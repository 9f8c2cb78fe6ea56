------------------------------ MODULE CoreTrace ------------------------------
(* Trace validation: every recorded execution of the real code must be a      *)
(* behaviour of SalabimCore, and every observation must be the one SalabimCore *)
(* predicts.  A trace is [id, g, b, ev]: scenario, initial observation, and    *)
(* events [o, b] with the operation and the observed fields that changed.      *)
EXTENDS SalabimCore, SalabimProps, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, i, S
vars == <<tid, i, S>>

Init ==
  /\ tid \in 1..Len(Traces)
  /\ i = 0
  /\ S = InitState(Traces[tid].g)

\* the observed fields that differ from what the specification predicts
Acc == {"ra", "rlos", "sa", "qa", "sd", "tr"}      \* only recorded now and then
Diff(x, y, b) ==
  {f \in (DOMAIN y) \ Acc : (IF f \in DOMAIN b THEN b[f] ELSE x[f]) # y[f]}
  \cup {f \in Acc \cap DOMAIN b : b[f] # y[f]}

Report(n, kind, what, exp) == PrintT(<<"FAIL", Traces[tid].id, n, kind, ToJson(what), ToJson(exp)>>)

Next ==
  /\ i >= 0
  /\ i < Len(Traces[tid].ev)
  /\ tid' = tid
  /\ LET e == Traces[tid].ev[i + 1]
         T == Apply(S, e.o)
         x == Obs(S)
         y == Obs(T)
         d == Diff(x, y, e.b)
         p == StateViolations(T) \cup StepViolations(S, e.o, T)
     IN /\ S' = T
        /\ IF d # {}
           THEN i' = -1 /\ Report(i + 1, "conformance", [f \in d |-> y[f]], e.o)
           ELSE IF p # {} THEN i' = -1 /\ Report(i + 1, "property", p, e.o)
           ELSE i' = i + 1

InitOk ==     \* checked as an invariant in the initial states
  i = 0 => LET d == Diff(Obs(S), Obs(S), Traces[tid].b)
           IN d = {} \/ Report(0, "conformance", [f \in d |-> Obs(S)[f]], [op |-> "init"])

Spec == Init /\ [][Next]_vars
View == <<tid, i>>
Done == PrintT(<<"DONE", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
