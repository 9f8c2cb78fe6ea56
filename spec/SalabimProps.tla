----------------------------- MODULE SalabimProps -----------------------------
(* The properties, as predicates on states and on steps of SalabimCore.        *)
EXTENDS SalabimCore

RECURSIVE SumA(_)
SumA(a) == IF a = <<>> THEN 0 ELSE a[1][2] + SumA(Tail(a))
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumF(f, D \ {x})

SortedQ(q) == \A i \in 1..(Len(q) - 1) : q[i][2] <= q[i + 1][2]
NoDup(q) == \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1]

\* ---- life cycle
OneCurrent(S) ==
  /\ \A c \in Comps(S) : S.st[c] = "current" => c = S.cur
  /\ S.st[S.cur] = "current"
ListedOk(S) ==      \* on the event list exactly when an event is due
  \A c \in Comps(S) :
    /\ S.on[c] => S.st[c] \in {"scheduled", "requesting", "waiting"} /\ S.sch[c] = S.et[c] /\ S.et[c] >= S.now
    /\ S.st[c] = "scheduled" => S.on[c]
    /\ S.st[c] \in {"current", "passive", "data", "none"} => ~S.on[c] /\ S.sch[c] = INF
    /\ S.st[c] = "interrupted" => ~S.on[c] /\ S.lv[c] > 0
StandbyOk(S) ==
  \A c \in Comps(S) : (S.st[c] = "standby") <=> (Has(S.standby, c) \/ Has(S.pending, c))
DataOk(S) ==
  \A c \in Comps(S) : S.st[c] \in {"data", "none", "passive"} =>
      /\ S.req[c] = <<>> /\ S.wt[c] = <<>> /\ S.fs[c] = <<>> /\ S.ts[c] = <<>>
      /\ S.st[c] = "passive" \/ S.cla[c] = <<>>

\* ---- resources
Conservation(S) ==
  \A r \in Ress(S) :
    /\ ~S.g.res[r].anon => /\ S.cl[r] = SumF([c \in Comps(S) |-> GetA(S.cla[c], r)], Comps(S))
                           /\ \A c \in Comps(S) : InA(S.cla[c], r) <=> InQ(S.cq[r], c)
                           /\ \A c \in Comps(S) : InA(S.cla[c], r) => GetA(S.cla[c], r) > 0
    /\ S.g.res[r].anon => S.cq[r] = <<>> /\ S.cl[r] >= 0
    /\ ~S.try[r]
QueuesOk(S) ==
  /\ \A r \in Ress(S) :
       /\ SortedQ(S.rq[r]) /\ SortedQ(S.cq[r]) /\ NoDup(S.rq[r]) /\ NoDup(S.cq[r])
       /\ \A c \in Comps(S) : InA(S.req[c], r) <=> InQ(S.rq[r], c)
  /\ \A s \in Sts(S) : /\ SortedQ(S.wq[s]) /\ NoDup(S.wq[s])
                       /\ \A c \in Comps(S) : InQ(S.wq[s], c) <=> \E i \in 1..Len(S.wt[c]) : S.wt[c][i].s = s
NoLostRequest(S) ==
  \A c \in Comps(S) : S.req[c] # <<>> /\ S.st[c] # "interrupted" => HonorSet(S, c) = {}

\* ---- states
NoLostWait(S) == \A c \in Comps(S) : ~Awake(S, c)

\* ---- stores
StoreOk(S) ==
  /\ \A q \in Stos(S) : /\ SortedQ(S.qi[q]) /\ NoDup(S.qi[q])
                        /\ SortedQ(S.fq[q]) /\ SortedQ(S.tq[q]) /\ NoDup(S.fq[q]) /\ NoDup(S.tq[q])
                        /\ \A c \in Comps(S) : (InQ(S.fq[q], c) <=> Has(S.fs[c], q)) /\ (InQ(S.tq[q], c) <=> Has(S.ts[c], q))
NoLostStore(S) ==
  \A q \in Stos(S) :
    /\ \A i \in 1..Len(S.fq[q]) : FirstItem(S, q, S.ff[S.fq[q][i][1]]) = 0
    /\ S.tq[q] # <<>> => Len(S.qi[q]) >= S.qc[q]

StateViolations(S) ==
  (IF OneCurrent(S) THEN {} ELSE {"OneCurrent"}) \cup
  (IF ListedOk(S) THEN {} ELSE {"ListedOk"}) \cup
  (IF StandbyOk(S) THEN {} ELSE {"StandbyOk"}) \cup
  (IF DataOk(S) THEN {} ELSE {"DataOk"}) \cup
  (IF Conservation(S) THEN {} ELSE {"Conservation"}) \cup
  (IF QueuesOk(S) THEN {} ELSE {"QueuesOk"}) \cup
  (IF NoLostRequest(S) THEN {} ELSE {"NoLostRequest"}) \cup
  (IF NoLostWait(S) THEN {} ELSE {"NoLostWait"}) \cup
  (IF StoreOk(S) THEN {} ELSE {"StoreOk"}) \cup
  (IF NoLostStore(S) THEN {} ELSE {"NoLostStore"})

\* ---- steps
TimeMonotone(S, T) == T.now >= S.now
\* when control moved: nothing left on the event list precedes the event that was taken
OrderOk(S, o, T) ==
  \A d \in Listed(T) : T.et[d] >= T.now
WithinCapacity(S, o, T) ==   \* claims only grow up to the capacity
  \A r \in Ress(T) : T.cl[r] > S.cl[r] => T.cl[r] <= T.cap[r]
StoreCapacity(S, o, T) ==
  \A q \in Stos(T) : Len(T.qi[q]) > Len(S.qi[q]) => Len(T.qi[q]) <= T.qc[q]

StepViolations(S, o, T) ==
  (IF TimeMonotone(S, T) THEN {} ELSE {"TimeMonotone"}) \cup
  (IF OrderOk(S, o, T) THEN {} ELSE {"OrderOk"}) \cup
  (IF WithinCapacity(S, o, T) THEN {} ELSE {"WithinCapacity"}) \cup
  (IF StoreCapacity(S, o, T) THEN {} ELSE {"StoreCapacity"})
=============================================================================
