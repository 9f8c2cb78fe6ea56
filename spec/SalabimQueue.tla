----------------------------- MODULE SalabimQueue -----------------------------
(***************************************************************************)
(* Queues: ordered on priority, first come first served within a priority;  *)
(* positional entering, priority changes, leaving, bulk and set operations,  *)
(* capacity, iteration while the queue changes, and the statistics (length,  *)
(* length of stay, arrivals, departures).                                    *)
(*                                                                          *)
(* S = [now, off, n, qs, its, eid, err, ans].  A queue is a record            *)
(*   [m, cap, on, arr, at, dep, dt, ld, li, l2, lm, ln, ls, lq, ai, ac, am, nr] *)
(* m: members <<component, priority, enter time, entry id>>; on: monitored;  *)
(* arr/at, dep/dt: arrivals/departures since at/dt; ld, li, l2: total         *)
(* duration, integral of the length and of its square while monitored;       *)
(* lm: longest length that lasted; ln, ls, lq: number, sum, sum of squares    *)
(* of lengths of stay; ai: integral of the available quantity (ac: it was     *)
(* always finite, am: monitored from the start); nr: counts never reset.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000
NONE == -900002
NAN == 900001

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

NewQ(S, cap, on) ==
  [m |-> <<>>, cap |-> cap, on |-> on, arr |-> 0, at |-> S.now, dep |-> 0, dt |-> S.now,
   ld |-> 0, li |-> 0, l2 |-> 0, lm |-> 0, ln |-> 0, ls |-> 0, lq |-> 0, ai |-> 0, ac |-> cap # INF, am |-> on, nr |-> TRUE]

InQ(q, c) == \E i \in 1..Len(q.m) : q.m[i][1] = c
Pos(q, c) == CHOOSE i \in 1..Len(q.m) : q.m[i][1] = c
Members(q) == {q.m[i][1] : i \in 1..Len(q.m)}
Order(q) == [i \in 1..Len(q.m) |-> q.m[i][1]]
Full(q) == q.cap # INF /\ Len(q.m) >= q.cap
Avail(q) == IF q.cap = INF THEN INF ELSE q.cap - Len(q.m)

\* component c enters queue k in front of position i with priority p
Put(S, k, i, c, p) ==
  [S EXCEPT !.qs[k].m = InsertAt(@, i, <<c, p, S.now, S.eid>>), !.qs[k].arr = @ + 1, !.eid = @ + 1]
\* component at position i leaves queue k
Take(S, k, i) ==
  LET q == S.qs[k]
      d == S.now - q.m[i][3]
  IN [S EXCEPT !.qs[k] = [q EXCEPT !.m = RemoveAt(@, i), !.dep = @ + 1,
                          !.ln = IF q.on THEN @ + 1 ELSE @, !.ls = IF q.on THEN @ + d ELSE @, !.lq = IF q.on THEN @ + d * d ELSE @]]

Err(S, e) == [S EXCEPT !.err = e]
Ans(S, a) == [S EXCEPT !.ans = a]

\* entering at position i (1..Len + 1), with the priority of a neighbour (0 in an empty queue)
Enter(S, k, i, c, p) == IF Full(S.qs[k]) THEN Err(S, "QueueFullError") ELSE Put(S, k, i, c, p)

TailPrio(q) == IF q.m = <<>> THEN 0 ELSE q.m[Len(q.m)][2]

\* behind all members with the same or a smaller priority
SortedPos(q, p) == 1 + Cardinality({i \in 1..Len(q.m) : q.m[i][2] <= p})

InitState(g) ==
  LET S0 == [now |-> 0, off |-> 0, n |-> g.n, qs |-> <<>>, its |-> <<>>, eid |-> 1, err |-> "", ans |-> <<>>]
  IN [S0 EXCEPT !.qs = [k \in 1..Len(g.qs) |-> NewQ(S0, g.qs[k].cap, g.qs[k].on)]]

-----------------------------------------------------------------------------
Do_adv(S, o) ==
  [S EXCEPT !.now = @ + o.d,
            !.qs = [k \in 1..Len(S.qs) |->
               LET q == S.qs[k]
                   l == Len(q.m)
                   q1 == IF q.on THEN [q EXCEPT !.ld = @ + o.d, !.li = @ + l * o.d, !.l2 = @ + l * l * o.d, !.lm = Max2(@, l)] ELSE q
               IN IF q.cap = INF THEN [q1 EXCEPT !.ac = FALSE] ELSE [q1 EXCEPT !.ai = @ + Avail(q) * o.d]]]
Do_resetnow(S, o) == [S EXCEPT !.off = S.now - o.t]

Do_enter(S, o) ==     \* o.p: NONE: at the tail
  LET q == S.qs[o.q] IN
  IF InQ(q, o.c) THEN Err(S, "ValueError")
  ELSE IF o.p = NONE THEN Enter(S, o.q, Len(q.m) + 1, o.c, TailPrio(q))
  ELSE Enter(S, o.q, SortedPos(q, o.p), o.c, o.p)
Do_athead(S, o) ==
  LET q == S.qs[o.q] IN
  IF InQ(q, o.c) THEN Err(S, "ValueError")
  ELSE Enter(S, o.q, 1, o.c, IF q.m = <<>> THEN 0 ELSE q.m[1][2])
Do_front(S, o) ==
  LET q == S.qs[o.q] IN
  IF InQ(q, o.c) \/ ~InQ(q, o.x) THEN Err(S, "ValueError")
  ELSE Enter(S, o.q, Pos(q, o.x), o.c, q.m[Pos(q, o.x)][2])
Do_behind(S, o) ==
  LET q == S.qs[o.q] IN
  IF InQ(q, o.c) \/ ~InQ(q, o.x) THEN Err(S, "ValueError")
  ELSE Enter(S, o.q, Pos(q, o.x) + 1, o.c, q.m[Pos(q, o.x)][2])
Do_insert(S, o) ==    \* o.i: 0-based
  LET q == S.qs[o.q] IN
  IF o.i < 0 \/ o.i > Len(q.m) THEN Err(S, "IndexError")
  ELSE IF InQ(q, o.c) THEN Err(S, "ValueError")
  ELSE Enter(S, o.q, o.i + 1, o.c, IF o.i < Len(q.m) THEN q.m[o.i + 1][2] ELSE TailPrio(q))
\* a changed priority moves the component behind those with the same priority; statistics are not affected
Do_prio(S, o) ==
  LET q == S.qs[o.q] IN
  IF ~InQ(q, o.c) THEN Err(S, "ValueError")
  ELSE LET e == q.m[Pos(q, o.c)]
           r == [q EXCEPT !.m = RemoveAt(@, Pos(q, o.c))]
       IN IF e[2] = o.p THEN S
          ELSE [S EXCEPT !.qs[o.q].m = InsertAt(r.m, SortedPos(r, o.p), [e EXCEPT ![2] = o.p])]
Do_leave(S, o) ==
  IF ~InQ(S.qs[o.q], o.c) THEN Err(S, "ValueError") ELSE Take(S, o.q, Pos(S.qs[o.q], o.c))

RECURSIVE LeaveFrom(_, _, _)
LeaveFrom(S, c, k) == IF k = 0 THEN S ELSE LeaveFrom(IF InQ(S.qs[k], c) THEN Take(S, k, Pos(S.qs[k], c)) ELSE S, c, k - 1)
Do_leaveall(S, o) == LeaveFrom(S, o.c, Len(S.qs))

RECURSIVE ClearQ(_, _)
ClearQ(S, k) == IF S.qs[k].m = <<>> THEN S ELSE ClearQ(Take(S, k, 1), k)
Do_clear(S, o) == ClearQ(S, o.q)

Do_pop(S, o) ==       \* o.i: NONE or a valid (also negative) index
  LET q == S.qs[o.q]
      i == IF o.i = NONE THEN 1 ELSE IF o.i < 0 THEN Len(q.m) + o.i + 1 ELSE o.i + 1
  IN IF o.i = NONE /\ q.m = <<>> THEN Ans(S, <<0>>)
     ELSE IF i < 1 \/ i > Len(q.m) THEN Err(S, "IndexError")
     ELSE Ans(Take(S, o.q, i), <<q.m[i][1]>>)

\* python's slice(a, b, k).indices(n), as the sequence of (1-based) positions
Clip(x, n, lo, hi) == IF x < 0 THEN (IF x + n < lo THEN lo ELSE x + n) ELSE IF x > hi THEN hi ELSE x
RECURSIVE Range(_, _, _)
Range(a, b, k) == IF (k > 0 /\ a >= b) \/ (k < 0 /\ a <= b) THEN <<>> ELSE <<a + 1>> \o Range(a + k, b, k)
Slice(n, a, b, k0) ==
  LET k == IF k0 = NONE THEN 1 ELSE k0
      lo == IF k > 0 THEN 0 ELSE -1
      hi == IF k > 0 THEN n ELSE n - 1
      s == IF a = NONE THEN (IF k > 0 THEN lo ELSE hi) ELSE Clip(a, n, lo, hi)
      e == IF b = NONE THEN (IF k > 0 THEN hi ELSE lo) ELSE Clip(b, n, lo, hi)
  IN Range(s, e, k)

RECURSIVE TakeAll(_, _, _)
TakeAll(S, k, cs) == IF cs = <<>> THEN S ELSE TakeAll(Take(S, k, Pos(S.qs[k], cs[1])), k, Tail(cs))
Do_delslice(S, o) ==
  LET q == S.qs[o.q]
      ix == Slice(Len(q.m), o.a, o.b, o.k)
  IN TakeAll(S, o.q, [j \in 1..Len(ix) |-> q.m[ix[j]][1]])
Do_del(S, o) == [Do_pop(S, o) EXCEPT !.ans = <<>>]

RECURSIVE AddAll(_, _, _)
AddAll(S, k, cs) ==
  IF cs = <<>> \/ S.err # "" THEN S
  ELSE AddAll(IF InQ(S.qs[k], cs[1]) THEN S ELSE Enter(S, k, Len(S.qs[k].m) + 1, cs[1], TailPrio(S.qs[k])), k, Tail(cs))
Do_extend(S, o) ==    \* from queue o.src (0: from the list o.cs)
  LET T == AddAll(S, o.q, IF o.src = 0 THEN o.cs ELSE Order(S.qs[o.src]))
  IN IF o.clear /\ T.err = "" THEN ClearQ(T, o.src) ELSE T

Do_setcap(S, o) == [S EXCEPT !.qs[o.q].cap = o.v]
Do_mon(S, o) == [S EXCEPT !.qs[o.q].on = o.b]
Do_resetmon(S, o) ==
  [S EXCEPT !.qs[o.q] = [@ EXCEPT !.on = IF o.b = NONE THEN @ ELSE o.b = 1,
                         !.ld = 0, !.li = 0, !.l2 = 0, !.lm = 0, !.ln = 0, !.ls = 0, !.lq = 0]]
Do_arrreset(S, o) == [S EXCEPT !.qs[o.q].arr = 0, !.qs[o.q].at = S.now, !.qs[o.q].nr = FALSE]
Do_depreset(S, o) == [S EXCEPT !.qs[o.q].dep = 0, !.qs[o.q].dt = S.now, !.qs[o.q].nr = FALSE]

\* new queues
RECURSIVE FillQ(_, _, _)
FillQ(S, k, es) == IF es = <<>> THEN S ELSE FillQ(Put(S, k, Len(S.qs[k].m) + 1, es[1][1], es[1][2]), k, Tail(es))
NewFrom(S, cap, on, es) == LET T == [S EXCEPT !.qs = Append(@, NewQ(S, cap, on))] IN FillQ(T, Len(T.qs), es)
Entries(q, X, keep) ==     \* members of q that are in X
  LET s == SelectSeq(q.m, LAMBDA e : e[1] \in X)
  IN [i \in 1..Len(s) |-> <<s[i][1], IF keep THEN s[i][2] ELSE 0>>]
Do_new(S, o) == AddAll([S EXCEPT !.qs = Append(@, NewQ(S, o.cap, o.on))], Len(S.qs) + 1, o.cs)
Do_setop(S, o) ==
  LET a == S.qs[o.q]
      b == S.qs[o.r]
      A == Members(a)
      Bm == Members(b)
  IN CASE o.k = "union" -> NewFrom(S, INF, o.on, Entries(a, A, FALSE) \o Entries(b, Bm \ A, FALSE))
       [] o.k = "intersection" -> NewFrom(S, INF, o.on, Entries(a, A \cap Bm, FALSE))
       [] o.k = "difference" -> NewFrom(S, INF, o.on, Entries(a, A \ Bm, TRUE))
       [] o.k = "symmetric_difference" -> NewFrom(S, INF, o.on, Entries(a, A \ Bm, FALSE) \o Entries(b, Bm \ A, FALSE))
Do_copy(S, o) ==      \* o.mv: the original is emptied
  LET T == NewFrom(S, INF, o.on, Entries(S.qs[o.q], Members(S.qs[o.q]), TRUE))
      k == Len(T.qs)
      U == IF o.cc THEN [T EXCEPT !.qs[k].cap = S.qs[o.q].cap, !.qs[k].ac = S.qs[o.q].cap # INF] ELSE T
  IN IF o.mv THEN ClearQ(U, o.q) ELSE U

-----------------------------------------------------------------------------
\* iteration: each next yields the first member (in the order of that moment) that this iteration did not yield yet
Do_iter(S, o) == [S EXCEPT !.its = Append(@, [q |-> o.q, rev |-> o.rev, seen |-> {}, ended |-> FALSE])]
Do_next(S, o) ==
  LET it == S.its[o.it]
      m == S.qs[it.q].m
      C == {i \in 1..Len(m) : m[i][4] \notin it.seen}
      i == IF it.rev THEN CHOOSE i \in C : \A j \in C : j <= i ELSE CHOOSE i \in C : \A j \in C : i <= j
  IN IF it.ended \/ C = {} THEN Ans([S EXCEPT !.its[o.it].ended = TRUE], <<0>>)
     ELSE Ans([S EXCEPT !.its[o.it].seen = @ \cup {m[i][4]}], <<m[i][1]>>)

\* questions
Do_slice(S, o) ==
  LET q == S.qs[o.q]
      ix == Slice(Len(q.m), o.a, o.b, o.k)
  IN Ans(S, [j \in 1..Len(ix) |-> q.m[ix[j]][1]])
Do_at(S, o) ==        \* q[i]
  LET q == S.qs[o.q]
      i == IF o.i < 0 THEN Len(q.m) + o.i + 1 ELSE o.i + 1
  IN IF i < 1 \/ i > Len(q.m) THEN Err(S, "IndexError") ELSE Ans(S, <<q.m[i][1]>>)
Do_nbr(S, o) ==       \* predecessor, successor, index
  LET q == S.qs[o.q]
      i == Pos(q, o.c)
  IN IF ~InQ(q, o.c) THEN Err(S, "ValueError")
     ELSE Ans(S, <<IF i = 1 THEN 0 ELSE q.m[i - 1][1], IF i = Len(q.m) THEN 0 ELSE q.m[i + 1][1], i - 1>>)
Bit(b) == IF b THEN 1 ELSE 0
Do_cmp(S, o) ==
  LET A == Members(S.qs[o.q])
      C == Members(S.qs[o.r])
  IN Ans(S, <<Bit(A = C), Bit(A # C), Bit(A \subseteq C /\ A # C), Bit(A \subseteq C), Bit(C \subseteq A /\ A # C), Bit(C \subseteq A)>>)

Apply(S0, o) ==
  LET S == [S0 EXCEPT !.err = "", !.ans = <<>>] IN
  CASE o.op = "adv" -> Do_adv(S, o)
    [] o.op = "resetnow" -> Do_resetnow(S, o)
    [] o.op = "enter" -> Do_enter(S, o)
    [] o.op = "athead" -> Do_athead(S, o)
    [] o.op = "front" -> Do_front(S, o)
    [] o.op = "behind" -> Do_behind(S, o)
    [] o.op = "insert" -> Do_insert(S, o)
    [] o.op = "prio" -> Do_prio(S, o)
    [] o.op = "leave" -> Do_leave(S, o)
    [] o.op = "leaveall" -> Do_leaveall(S, o)
    [] o.op = "clear" -> Do_clear(S, o)
    [] o.op = "pop" -> Do_pop(S, o)
    [] o.op = "del" -> Do_del(S, o)
    [] o.op = "delslice" -> Do_delslice(S, o)
    [] o.op = "extend" -> Do_extend(S, o)
    [] o.op = "setcap" -> Do_setcap(S, o)
    [] o.op = "mon" -> Do_mon(S, o)
    [] o.op = "resetmon" -> Do_resetmon(S, o)
    [] o.op = "arrreset" -> Do_arrreset(S, o)
    [] o.op = "depreset" -> Do_depreset(S, o)
    [] o.op = "new" -> Do_new(S, o)
    [] o.op = "setop" -> Do_setop(S, o)
    [] o.op = "copy" -> Do_copy(S, o)
    [] o.op = "iter" -> Do_iter(S, o)
    [] o.op = "next" -> Do_next(S, o)
    [] o.op = "slice" -> Do_slice(S, o)
    [] o.op = "at" -> Do_at(S, o)
    [] o.op = "nbr" -> Do_nbr(S, o)
    [] o.op = "cmp" -> Do_cmp(S, o)
    [] OTHER -> S

ObsQ(S, q) ==
  [m |-> [i \in 1..Len(q.m) |-> <<q.m[i][1], q.m[i][2], q.m[i][3] - S.off>>],
   cap |-> q.cap, av |-> Avail(q), arr |-> IF S.now = q.at THEN NAN ELSE q.arr, dep |-> IF S.now = q.dt THEN NAN ELSE q.dep,
   len |-> <<q.ld, q.li, q.l2>>, los |-> <<q.ln, q.ls, q.lq>>,
   ai |-> IF q.ac /\ q.am /\ q.cap # INF THEN q.ai ELSE NAN]
Obs(S) == [now |-> S.now - S.off, err |-> S.err, ans |-> S.ans, qs |-> [k \in 1..Len(S.qs) |-> ObsQ(S, S.qs[k])],
           cq |-> [c \in 1..S.n |-> [k \in 1..Len(S.qs) |-> InQ(S.qs[k], c)]]]

-----------------------------------------------------------------------------
\* properties
SortedOk(S) == \A k \in 1..Len(S.qs) : \A i \in 1..(Len(S.qs[k].m) - 1) : S.qs[k].m[i][2] <= S.qs[k].m[i + 1][2]
NoDup(S) == \A k \in 1..Len(S.qs) : Cardinality(Members(S.qs[k])) = Len(S.qs[k].m)
StateViolations(S) ==
  (IF SortedOk(S) THEN {} ELSE {"SortedOk"}) \cup (IF NoDup(S) THEN {} ELSE {"NoDup"}) \cup
  \* what came in is still there or has left (as long as the counts were not reset)
  (IF \A k \in 1..Len(S.qs) : LET q == S.qs[k] IN q.nr => q.arr - q.dep = Len(q.m) THEN {} ELSE {"Balance"})
\* the relative order of members that stay only changes by a priority change
Sub(q, X) == SelectSeq(Order(q), LAMBDA c : c \in X)
StepViolations(S, o, T) ==
  (IF \A k \in 1..Len(S.qs) : LET X == Members(S.qs[k]) \cap Members(T.qs[k]) IN
        o.op = "prio" \/ Sub(S.qs[k], X) = Sub(T.qs[k], X) THEN {} ELSE {"OrderKept"}) \cup
  (IF \A k \in 1..Len(S.qs) : Len(T.qs[k].m) > Len(S.qs[k].m) => T.qs[k].cap = INF \/ Len(T.qs[k].m) <= T.qs[k].cap THEN {} ELSE {"Capacity"})
=============================================================================
