-------------------------------- MODULE MCCore --------------------------------
(* Exhaustive exploration of SalabimCore for small scenarios.  Every transition *)
(* is printed with the operations that lead to it and the observation that must  *)
(* result, so that it can be replayed on the real code.                          *)
EXTENDS SalabimCore, SalabimProps, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

-----------------------------------------------------------------------------
\* scenario building blocks
RP(cap) == [cap |-> cap, anon |-> FALSE, pre |-> FALSE, hof |-> FALSE, hohp |-> FALSE, init |-> 0]
RA(cap, init) == [RP(cap) EXCEPT !.anon = TRUE, !.init = init]
RPre(cap) == [RP(cap) EXCEPT !.pre = TRUE]
RHof(cap) == [RP(cap) EXCEPT !.hof = TRUE]
RHohp(cap) == [RP(cap) EXCEPT !.hohp = TRUE]
G0(n) == [n |-> n, skip |-> [c \in 1..n |-> FALSE], res |-> <<>>, sts |-> <<>>, sto |-> <<>>, items |-> 0]

Cr(c) == [op |-> "create", c |-> c, d |-> 0, p |-> 0, u |-> FALSE]
Run(d) == [op |-> "run", d |-> d, t |-> -1, p |-> INF, u |-> FALSE]
RunAll == [op |-> "run", d |-> -1, t |-> -1, p |-> INF, u |-> FALSE]
Hold(c, d, p, u) == [op |-> "hold", c |-> c, d |-> d, p |-> p, u |-> u]
Act(c, d, p, u) == [op |-> "activate", c |-> c, d |-> d, p |-> p, u |-> u, keep |-> FALSE]
CrP(c, m, a) == [op |-> "create", c |-> c, d |-> 0, p |-> 0, u |-> FALSE, m |-> m, a |-> a]
ActP(c, d, m, a) == [op |-> "activate", c |-> c, d |-> d, p |-> 0, u |-> FALSE, keep |-> FALSE, proc |-> TRUE, m |-> m, a |-> a]
One(o, c) == [op |-> o, c |-> c]
Resume(c, all) == [op |-> "resume", c |-> c, all |-> all, p |-> 0, u |-> FALSE]
Req(c, a, oneof, f) == [op |-> "request", c |-> c, a |-> a, oneof |-> oneof, f |-> f, p |-> 0, u |-> FALSE]
A1(r, q, p) == [r |-> r, q |-> q, p |-> p]
Rel(c, r, q) == [op |-> "release", c |-> c, r |-> r, q |-> q]
SetCap(r, v) == [op |-> "setcap", r |-> r, v |-> v]
RRel(r, q) == [op |-> "rrelease", r |-> r, q |-> q]
Set(s, v) == [op |-> "set", s |-> s, v |-> v]
Trig(s, v, v2, m) == [op |-> "trigger", s |-> s, v |-> v, v2 |-> v2, m |-> m]
W1(s, k, v, p) == [s |-> s, k |-> k, v |-> v, p |-> p]
Wait(c, w, all, f) == [op |-> "wait", c |-> c, w |-> w, all |-> all, f |-> f, p |-> 0, u |-> FALSE]
From(c, qs, fl, rp, f) == [op |-> "fromstore", c |-> c, qs |-> qs, fl |-> fl, key |-> <<>>, rp |-> rp, f |-> f, p |-> 0, u |-> TRUE]
FromKey(c, qs, key) == [From(c, qs, <<>>, 0, -1) EXCEPT !.key = key]
To(c, qs, i, rp, f) == [op |-> "tostore", c |-> c, qs |-> qs, i |-> i, rp |-> rp, ip |-> 0, f |-> f, p |-> 0, u |-> TRUE]
End == [op |-> "end"]
MonOp(k, i, b) == [op |-> "mon", k |-> k, i |-> i, b |-> b]
MonReset(k, i, b) == [op |-> "monreset", k |-> k, i |-> i, b |-> b]

Scenario ==
  CASE Scn = "order" -> [g |-> G0(3), pre |-> <<Cr(1), Cr(2), Cr(3), Run(3)>>]
    [] Scn = "run" -> [g |-> G0(2), pre |-> <<Cr(1)>>]
    [] Scn = "life" -> [g |-> G0(2), pre |-> <<Cr(1), Cr(2), Run(9)>>]
    [] Scn = "interrupt" -> [g |-> G0(2), pre |-> <<Cr(1), Cr(2), Run(9)>>]
    [] Scn = "standby" -> [g |-> [G0(3) EXCEPT !.skip = <<FALSE, TRUE, FALSE>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "plain" -> [g |-> [G0(3) EXCEPT !.res = <<RP(2)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "multi" -> [g |-> [G0(3) EXCEPT !.res = <<RP(1), RP(2)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "hof" -> [g |-> [G0(3) EXCEPT !.res = <<RHof(2)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "hohp" -> [g |-> [G0(3) EXCEPT !.res = <<RHohp(2)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "pre" -> [g |-> [G0(3) EXCEPT !.res = <<RPre(2)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "anon" -> [g |-> [G0(3) EXCEPT !.res = <<RA(3, 1)>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "fail" -> [g |-> [G0(3) EXCEPT !.res = <<RP(1)>>, !.sts = <<0>>, !.sto = <<[cap |-> 1]>>, !.items = 2],
                        pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "state" -> [g |-> [G0(3) EXCEPT !.sts = <<0>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "state2" -> [g |-> [G0(2) EXCEPT !.sts = <<0, 0>>], pre |-> <<Cr(1), Cr(2), Run(9)>>]
    [] Scn = "store" -> [g |-> [G0(3) EXCEPT !.sto = <<[cap |-> 1]>>, !.items = 2], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]
    [] Scn = "store2" -> [g |-> [G0(2) EXCEPT !.sto = <<[cap |-> 1], [cap |-> 2]>>, !.items = 3], pre |-> <<Cr(1), Cr(2), Run(9)>>]
    [] Scn = "monr" -> [g |-> [G0(2) EXCEPT !.res = <<RP(2)>>], pre |-> <<Cr(1), Cr(2), Run(20)>>]
    [] Scn = "monq" -> [g |-> [G0(2) EXCEPT !.sts = <<0>>, !.sto = <<[cap |-> 1]>>, !.items = 2], pre |-> <<Cr(1), Cr(2), Run(20)>>]
    [] Scn = "proc" -> [g |-> G0(2), pre |-> <<Cr(1), CrP(2, 1, 2), Run(9)>>]
    [] Scn = "mix" -> [g |-> [G0(3) EXCEPT !.res = <<RP(1)>>, !.sts = <<0>>], pre |-> <<Cr(1), Cr(2), Cr(3), Run(9)>>]

\* items that are nowhere (not in a store, not waiting to be stored)
FreeItems(T) ==
  {i \in 1..T.g.items : /\ \A q \in Stos(T) : ~InQ(T.qi[q], i)
                        /\ \A c \in Comps(T) : T.ts[c] # <<>> => T.ti[c] # i}
Holders(T, r) == {c \in Comps(T) : InA(T.cla[c], r)}

B == {TRUE, FALSE}
Basic(T, me, oth) == {Hold(me, 1, 0, FALSE), End} \cup {Act(c, 0, 0, FALSE) : c \in oth}

OpsComp(T) ==      \* what the current component may do
  LET me == T.cur
      oth == Comps(T) \ {me}
  IN CASE Scn = "order" ->
            {Hold(me, d, p, u) : d \in {0, 1}, p \in {0, 1}, u \in B}
            \cup {Act(c, d, 0, u) : c \in oth, d \in {0, 1}, u \in B} \cup {End}
       [] Scn = "run" ->
            {Hold(me, d, p, FALSE) : d \in {0, 1, 2}, p \in {0, 1}} \cup {End, One("passivate", me)}
            \cup {Act(c, 1, 0, FALSE) : c \in {x \in oth : T.st[x] # "none"}}
       [] Scn = "life" ->
            {Hold(c, d, 0, FALSE) : c \in Comps(T), d \in {0, 1}} \cup {End}
            \cup {One(o, c) : o \in {"passivate", "cancel", "standby", "interrupt"}, c \in Comps(T)}
            \cup {Act(c, d, 0, FALSE) : c \in Comps(T), d \in {0, 1}}
            \cup {Resume(c, FALSE) : c \in oth}
       [] Scn = "interrupt" ->
            {Hold(me, d, 0, FALSE) : d \in {1, 3}}
            \cup {One("interrupt", c) : c \in oth} \cup {Resume(c, a) : c \in oth, a \in B}
            \cup {[op |-> "holdint", c |-> c, d |-> 2, lv |-> l] : c \in Comps(T), l \in {1, 2}}
            \cup {[op |-> "remdur", c |-> c, d |-> 2, p |-> 0, u |-> FALSE] : c \in {x \in oth : T.st[x] # "data"}}
       [] Scn = "standby" ->
            {Hold(me, d, 0, FALSE) : d \in {0, 1}} \cup {One("standby", c) : c \in Comps(T)}
            \cup {Act(c, 0, 0, FALSE) : c \in oth} \cup {One("cancel", c) : c \in oth}
       [] Scn = "plain" ->
            Basic(T, me, {}) \cup {Req(me, <<A1(1, q, p)>>, FALSE, f) : q \in {1, 2}, p \in {0, 1}, f \in {-1, 1}}
            \cup {Rel(c, 1, q) : c \in Holders(T, 1), q \in {0, 1}} \cup {SetCap(1, v) : v \in {1, 3}}
            \cup {One("cancel", c) : c \in oth} \cup {RRel(1, 0)}
       [] Scn = "multi" ->
            Basic(T, me, {}) \cup {Req(me, <<A1(1, 1, 0)>>, FALSE, -1), Req(me, <<A1(2, 2, 0)>>, FALSE, -1), Req(me, <<A1(2, 1, 0), A1(2, 1, 0)>>, FALSE, -1)}
            \cup {Req(me, <<A1(1, 1, 0), A1(2, q, 0)>>, o, -1) : o \in B, q \in {1, 2}}
            \cup {Rel(me, r, 0) : r \in {x \in {1, 2} : InA(T.cla[me], x)}} \cup {One("cancel", c) : c \in oth}
       [] Scn \in {"hof", "hohp"} ->
            Basic(T, me, oth) \cup {Req(me, <<A1(1, q, p)>>, FALSE, f) : q \in {1, 2}, p \in {0, 1}, f \in {-1, 1}}
            \cup {Rel(c, 1, q) : c \in Holders(T, 1), q \in {0, 1}}
       [] Scn = "pre" ->
            Basic(T, me, {})
            \cup (IF InA(T.cla[me], 1) THEN {} ELSE {Req(me, <<A1(1, q, p)>>, FALSE, f) : q \in {1, 2}, p \in {0, 1, 2}, f \in {-1}})
            \cup {Rel(me, 1, 0) : c \in Holders(T, 1) \cap {me}} \cup {SetCap(1, v) : v \in {1, 2}}
       [] Scn = "anon" ->
            Basic(T, me, {}) \cup {Req(me, <<A1(1, q, p)>>, FALSE, -1) : q \in {-2, -1, 1, 2}, p \in {0, 1}}
            \cup {RRel(1, q) : q \in {0, 1}} \cup {SetCap(1, 2)} \cup {One("cancel", c) : c \in oth}
       [] Scn = "fail" ->
            {Hold(me, 1, 0, FALSE)} \cup {Req(me, <<A1(1, 1, 0)>>, FALSE, f) : f \in {-1, 1}}
            \cup {Wait(me, <<W1(1, "eq", 1, 0)>>, FALSE, f) : f \in {1}} \cup {Set(1, v) : v \in {0, 1}}
            \cup {From(me, <<1>>, <<>>, 0, f) : f \in {1}} \cup {To(me, <<1>>, i, 0, f) : i \in FreeItems(T), f \in {1}}
            \cup {Rel(me, 1, 0) : c \in Holders(T, 1) \cap {me}} \cup {One("cancel", c) : c \in oth} \cup {[Act(c, 2, 0, FALSE) EXCEPT !.keep = TRUE] : c \in oth}
       [] Scn = "state" ->
            Basic(T, me, {}) \cup {Wait(me, <<W1(1, k, v, p)>>, FALSE, f) : k \in {"eq"}, v \in {1, 2}, p \in {0, 1}, f \in {-1, 1}}
            \cup {Wait(me, <<W1(1, "gt", 0, 0)>>, FALSE, -1)}
            \cup {Set(1, v) : v \in {0, 1, 2}} \cup {Trig(1, 1, v2, m) : v2 \in {-1, 2}, m \in {-1, 1}}
       [] Scn = "state2" ->
            Basic(T, me, oth) \cup {Wait(me, <<W1(1, "eq", 1, 0), W1(2, k, 1, p)>>, a, -1) : k \in {"eq", "ne"}, p \in {0, 1}, a \in B}
            \cup {Wait(me, <<W1(1, "eq", 1, 0), W1(1, "eq", 2, 1)>>, a, 1) : a \in B}
            \cup {Set(s, v) : s \in {1, 2}, v \in {0, 1, 2}} \cup {Trig(s, 1, -1, 1) : s \in {1, 2}}
       [] Scn = "store" ->
            Basic(T, me, {}) \cup {From(me, <<1>>, fl, rp, f) : fl \in {<<>>, <<1>>, <<2>>}, rp \in {0, 1}, f \in {-1}}
            \cup {To(me, <<1>>, i, rp, f) : i \in FreeItems(T), rp \in {0}, f \in {-1, 1}}
            \cup {[op |-> "filter", c |-> c, fl |-> <<>>] : c \in {x \in oth : T.fs[x] # <<>>}}
            \cup {[op |-> "setqcap", q |-> 1, v |-> v] : v \in {0, 2}}
            \cup {[op |-> "ileave", q |-> 1, i |-> i] : i \in {x \in {1, 2} : InQ(T.qi[1], x)}}
       [] Scn = "store2" ->
            Basic(T, me, {}) \cup {From(me, qs, fl, 0, -1) : qs \in {<<1>>, <<1, 2>>, <<2, 1>>}, fl \in {<<>>, <<2>>}}
            \cup {FromKey(me, qs, <<3, 1, 2>>) : qs \in {<<1, 2>>}}
            \cup {To(me, qs, i, 0, -1) : i \in FreeItems(T), qs \in {<<1>>, <<2, 1>>, <<1, 2>>}}
       [] Scn = "monr" ->
            {Hold(me, 1, 0, FALSE), Req(me, <<A1(1, 1, 0)>>, FALSE, -1), Req(me, <<A1(1, 2, 0)>>, FALSE, 1), SetCap(1, 3)}
            \cup {Rel(c, 1, 0) : c \in Holders(T, 1)} \cup {MonOp("r", 1, b) : b \in B} \cup {MonReset("r", 1, b) : b \in {-1, 0}}
            \cup {MonOp("c", me, FALSE), MonReset("c", me, 1)}
       [] Scn = "monq" ->
            {Hold(me, 1, 0, FALSE), From(me, <<1>>, <<>>, 0, 2), Wait(me, <<W1(1, "eq", 1, 0)>>, FALSE, 1)}
            \cup {To(me, <<1>>, i, 0, -1) : i \in FreeItems(T)} \cup {Set(1, v) : v \in {0, 1}}
            \cup {MonOp(k, 1, b) : k \in {"s", "q"}, b \in B} \cup {MonReset(k, 1, -1) : k \in {"s", "q"}}
       [] Scn = "proc" ->
            LET Start == {ActP(c, d, m, a) : c \in Comps(T), d \in {0, 1}, m \in {0, 2}, a \in {0, 1}}
                Others == {Act(c, 0, 0, FALSE) : c \in Comps(T)} \cup {One(o, c) : o \in {"passivate", "cancel", "standby"}, c \in Comps(T)}
            IN {o \in Start \cup Others : T.pm[me] = 2 => o.c # me} \cup {End, [op |-> "raise", e |-> "TypeError"]}
               \cup (IF T.pm[me] = 2 THEN {} ELSE {Hold(me, 1, 0, FALSE)})
       [] Scn = "mix" ->
            Basic(T, me, oth) \cup {One(o, c) : o \in {"passivate", "interrupt", "cancel"}, c \in oth} \cup {Resume(c, FALSE) : c \in oth}
            \cup {Req(me, <<A1(1, 1, 0)>>, FALSE, -1)} \cup {Wait(me, <<W1(1, "eq", 1, 0)>>, FALSE, -1)}
            \cup {Rel(me, 1, 0) : c \in Holders(T, 1) \cap {me}} \cup {Set(1, v) : v \in {0, 1}}

OpsMain(T) ==
  CASE Scn = "run" -> {Run(d) : d \in {0, 1, 2}} \cup {RunAll} \cup {[Run(1) EXCEPT !.p = 0, !.u = u] : u \in B}
                      \cup {[Run(-1) EXCEPT !.t = T.now + 1]}
                      \cup {[Cr(2) EXCEPT !.d = d, !.u = u] : d \in {0, 1}, u \in (IF T.st[2] = "none" THEN B ELSE {})}
                      \cup {Act(c, 1, 0, FALSE) : c \in {x \in Comps(T) : T.st[x] # "none"}}
    [] OTHER -> {Run(2)}

Ops(T) == IF Len(h) > 0 /\ h[Len(h)].op = "raise" THEN {} ELSE IF T.cur = 0 THEN OpsMain(T) ELSE OpsComp(T)

RECURSIVE Play(_, _)
Play(T, ops) == IF ops = <<>> THEN T ELSE Play(Apply(T, ops[1]), Tail(ops))

Init ==
  /\ S = Play(InitState(Scenario.g), Scenario.pre)
  /\ h = Scenario.pre
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Len(Scenario.pre) + Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T)
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars

\* two states are the same when the future cannot tell them apart: drop the history accumulators and
\* replace event sequence numbers by their order
NormSeq(T) == [c \in DOMAIN T.es |-> IF T.on[c] THEN Cardinality({d \in Listed(T) : Before(T, d, c)}) ELSE -1]
View == <<[T0 \in {"a"} |-> 0], [S EXCEPT !.a = IF Scn \in {"monr", "monq"} THEN @ ELSE 0, !.seq = 0, !.es = NormSeq(S), !.err = "", !.pop = 0, !.tr = 0], Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
