----------------------------- MODULE SalabimCore -----------------------------
(***************************************************************************)
(* The state and the transitions of salabim's simulation core: the event    *)
(* list and the clock, component life cycle, interrupts, standby,           *)
(* resources (plain, anonymous, preemptive, honor_only_first,               *)
(* honor_only_highest_priority), states, and stores.                        *)
(*                                                                          *)
(* The whole system state is one record S.  Every public call is one        *)
(* operator (Do_xxx) from S to S; Apply dispatches an operation record, and *)
(* when the current component gave up control it performs one Step of the   *)
(* event loop.  So "Apply" is the next-state function between two moments   *)
(* at which user code (a component's process, or main) is about to act.     *)
(*                                                                          *)
(* Components are 1..N, main is 0.  Times, priorities, quantities: Int.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000          \* stands for infinity

Statuses0 == {"none", "data", "current", "scheduled", "passive", "requesting", "waiting", "standby", "interrupted"}
NOPRIO == -1000000      \* "no scheduled priority"

-----------------------------------------------------------------------------
\* Generic sequence helpers

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Has(s, e) == \E i \in 1..Len(s) : s[i] = e

\* Queues are sequences of <<member, priority, enter_time>>
InQ(q, c) == \E i \in 1..Len(q) : q[i][1] = c
PosQ(q, c) == CHOOSE i \in 1..Len(q) : q[i][1] = c
EntQ(q, c) == q[PosQ(q, c)]
DropQ(q, c) == RemoveAt(q, PosQ(q, c))
\* position in front of which an element with priority p is inserted:
\* behind all members with a priority <= p
RECURSIVE SortedPos(_, _, _)
SortedPos(q, p, i) == IF i = 1 THEN 1 ELSE IF q[i - 1][2] <= p THEN i ELSE SortedPos(q, p, i - 1)
EnterQ(q, c, p, t) == InsertAt(q, SortedPos(q, p, Len(q) + 1), <<c, p, t>>)

\* Association lists <<key, quantity>> in order of first insertion
InA(a, k) == \E i \in 1..Len(a) : a[i][1] = k
GetA(a, k) == IF InA(a, k) THEN a[CHOOSE i \in 1..Len(a) : a[i][1] = k][2] ELSE 0
AddA(a, k, v) == IF InA(a, k)
                 THEN [i \in 1..Len(a) |-> IF a[i][1] = k THEN <<k, a[i][2] + v>> ELSE a[i]]
                 ELSE Append(a, <<k, v>>)
DropA(a, k) == SelectSeq(a, LAMBDA x : x[1] # k)

Sub(t, u) == IF t = INF THEN INF ELSE t - u
Add(t, u) == IF t = INF \/ u = INF THEN INF ELSE t + u

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
\* Initial state of a scenario G:
\* [n, skip, res, sts, sto, items, now]
\*   res : Seq([cap, anon, pre, hof, hohp, init])   sts : Seq(Int)
\*   sto : Seq([cap])    items : number of items

Bit(b) == IF b THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x

InitState(G) ==
  LET C == 0..G.n
      R == 1..Len(G.res)
      Q == 1..Len(G.sto)
      W == 1..Len(G.sts)
  IN [ g |-> G,
       now |-> 0, off |-> 0, seq |-> 0, cur |-> 0, err |-> "", eoe |-> FALSE,   \* off: shown time = now - off
       \* event list entry of each component
       on |-> [c \in C |-> FALSE], et |-> [c \in C |-> 0], ep |-> [c \in C |-> 0], es |-> [c \in C |-> 0],
       st |-> [c \in C |-> IF c = 0 THEN "current" ELSE "none"],
       sch |-> [c \in C |-> INF],
       rd |-> [c \in C |-> 0], lv |-> [c \in C |-> 0],
       fl |-> [c \in C |-> FALSE],
       ct |-> [c \in C |-> 0],
       md |-> [c \in C |-> 0], mt |-> [c \in C |-> 0],   \* mode and the moment it was set
       standby |-> <<>>, pending |-> <<>>,
       \* the process of each component: method, argument, and how many operations it has done since it was started
       pm |-> [c \in C |-> 0], pa |-> [c \in C |-> 0], pk |-> [c \in C |-> 0],
       \* resources
       req |-> [c \in C |-> <<>>], oneof |-> [c \in C |-> FALSE], cla |-> [c \in C |-> <<>>],
       rq |-> [r \in R |-> <<>>], cq |-> [r \in R |-> <<>>],
       cl |-> [r \in R |-> G.res[r].init], cap |-> [r \in R |-> G.res[r].cap],
       try |-> [r \in R |-> FALSE],
       \* states
       sv |-> [s \in W |-> G.sts[s]], wq |-> [s \in W |-> <<>>],
       wt |-> [c \in C |-> <<>>], wall |-> [c \in C |-> FALSE],
       \* stores
       qi |-> [q \in Q |-> <<>>], qc |-> [q \in Q |-> G.sto[q].cap],
       fq |-> [q \in Q |-> <<>>], tq |-> [q \in Q |-> <<>>],
       fs |-> [c \in C |-> <<>>], ff |-> [c \in C |-> <<>>], fi |-> [c \in C |-> 0], fst |-> [c \in C |-> 0],
       ts |-> [c \in C |-> <<>>], ti |-> [c \in C |-> 0], tp |-> [c \in C |-> 0], tst |-> [c \in C |-> 0],
       \* history accumulators (time integrals, lengths of stay): what the monitors must report
       a |-> [ cl |-> [r \in R |-> 0], cap |-> [r \in R |-> 0], rl |-> [r \in R |-> 0], kl |-> [r \in R |-> 0],
               rn |-> [r \in R |-> 0], rs |-> [r \in R |-> 0], kn |-> [r \in R |-> 0], ks |-> [r \in R |-> 0],
               sv |-> [s \in W |-> 0], wl |-> [s \in W |-> 0], wn |-> [s \in W |-> 0], ws |-> [s \in W |-> 0],
               ql |-> [q \in Q |-> 0], qn |-> [q \in Q |-> 0], qs |-> [q \in Q |-> 0],
               oc |-> [r \in R |-> 0], rd |-> [r \in R |-> 0], wd |-> [s \in W |-> 0], qd |-> [q \in Q |-> 0],
               fl |-> [q \in Q |-> 0], fn |-> [q \in Q |-> 0], fs |-> [q \in Q |-> 0],
               tl |-> [q \in Q |-> 0], tn |-> [q \in Q |-> 0], ts |-> [q \in Q |-> 0],
               md |-> [c \in C |-> [x \in 1..3 |-> 0]],
               sd |-> [c \in C |-> [x \in Statuses0 |-> 0]] ],
       \* are the monitors of resources, states, stores and components switched on
       mon |-> [r |-> [r \in R |-> TRUE], s |-> [s \in W |-> TRUE], q |-> [q \in Q |-> TRUE], c |-> [c \in C |-> TRUE]],
       \* the last transfer of control (for the ordering properties)
       pop |-> [t |-> 0, p |-> 0, s |-> 0, c |-> 0],
       \* what the trace has to tell about the last operation
       tr |-> <<>> ]


Comps(S) == 1..S.g.n
Ress(S) == 1..Len(S.g.res)
Sts(S) == 1..Len(S.g.sts)
Stos(S) == 1..Len(S.g.sto)

-----------------------------------------------------------------------------
\* Event list

SetSt(S, c, x) == [S EXCEPT !.st[c] = x]

Push(S, c, t, p, u) ==
  IF t = INF THEN S
  ELSE [S EXCEPT !.seq = @ + 1, !.on[c] = TRUE, !.et[c] = t, !.ep[c] = p,
                 !.es[c] = IF u THEN -(S.seq + 1) ELSE S.seq + 1]

\* times as shown to the user
Tm(S, t) == IF t = INF THEN INF ELSE t - S.off
Log(S, e) == [S EXCEPT !.tr = Append(@, e)]

Reschedule(S, c, t, p, u) == Log(Push([S EXCEPT !.sch[c] = t], c, t, p, u), <<"for", c, Tm(S, t), Bit(u)>>)

Unlist(S, c) ==
  IF S.on[c] THEN [S EXCEPT !.on[c] = FALSE]
  ELSE IF S.st[c] = "standby"
       THEN [S EXCEPT !.standby = Without(@, c), !.pending = Without(@, c)]
       ELSE S

Before(S, c, d) ==      \* c's event comes before d's event
  \/ S.et[c] < S.et[d]
  \/ S.et[c] = S.et[d] /\ S.ep[c] < S.ep[d]
  \/ S.et[c] = S.et[d] /\ S.ep[c] = S.ep[d] /\ S.es[c] < S.es[d]

Listed(S) == {c \in DOMAIN S.on : S.on[c]}
NextEv(S) == CHOOSE c \in Listed(S) : \A d \in Listed(S) : c = d \/ Before(S, c, d)

-----------------------------------------------------------------------------
\* Resources

Avail(S, r) == S.cap[r] - S.cl[r]

LeaveReq(S, c, r) ==
  [S EXCEPT !.rq[r] = DropQ(@, c), !.a.rn[r] = @ + Bit(S.mon.r[r]), !.a.rs[r] = @ + Bit(S.mon.r[r]) * (S.now - EntQ(S.rq[r], c)[3])]
LeaveCla(S, c, r) ==
  [S EXCEPT !.cq[r] = DropQ(@, c), !.a.kn[r] = @ + Bit(S.mon.r[r]), !.a.ks[r] = @ + Bit(S.mon.r[r]) * (S.now - EntQ(S.cq[r], c)[3])]

\* may c's request for r be honored now?
Fits(S, c, r) ==
  LET q == GetA(S.req[c], r)
      g == S.g.res[r]
  IN /\ g.hof => S.rq[r][1][1] = c
     /\ g.hohp => EntQ(S.rq[r], c)[2] = S.rq[r][1][2]
     /\ IF q > 0 THEN q <= Avail(S, r) ELSE -q <= S.cl[r]

HonorSet(S, c) ==
  LET a == S.req[c]
      ok(i) == Fits(S, c, a[i][1])
  IN IF a = <<>> THEN {}
     ELSE IF S.oneof[c]
     THEN IF \E i \in 1..Len(a) : ok(i)
          THEN {a[CHOOSE i \in 1..Len(a) : ok(i) /\ \A j \in 1..(i - 1) : ~ok(j)][1]}
          ELSE {}
     ELSE IF \A i \in 1..Len(a) : ok(i) THEN {a[i][1] : i \in 1..Len(a)} ELSE {}

\* leaving makes room for other requesters (so they have to be retried)
Retry(g) == g.anon \/ g.pre \/ g.hof \/ g.hohp

RECURSIVE ClaimAll(_, _, _, _, _)
ClaimAll(S, c, a, H, i) ==
  IF i > Len(a) THEN S
  ELSE LET r == a[i][1]
           q == a[i][2]
           p == EntQ(S.rq[r], c)[2]
           S1 == IF r \notin H THEN S
                 ELSE LET S2 == Log([S EXCEPT !.cl[r] = @ + q], <<"claim", c, r, Abs(q)>>)
                      IN IF S.g.res[r].anon THEN S2
                         ELSE [S2 EXCEPT !.cla[c] = AddA(@, r, q),
                                         !.cq[r] = IF InQ(@, c) THEN @ ELSE EnterQ(@, c, p, S.now)]
       IN ClaimAll(LeaveReq(S1, c, r), c, a, H, i + 1)

RECURSIVE TryReq(_, _)
RECURSIVE TryRes(_, _)
RECURSIVE TryLoop(_, _, _)
RECURSIVE TryMany(_, _, _)

TryReq(S, c) ==
  IF S.st[c] = "interrupted" THEN S
  ELSE LET a == S.req[c]
           H == HonorSet(S, c)
       IN IF H = {} THEN S
          ELSE LET S1 == [ClaimAll(S, c, a, H, 1) EXCEPT !.req[c] = <<>>]
                   S2 == SetSt(Unlist(S1, c), c, "scheduled")
                   S3 == Reschedule(S2, c, S.now, 0, FALSE)
               IN TryMany(S3, [i \in 1..Len(a) |-> a[i][1]], 1)

TryMany(S, rs, i) ==
  IF i > Len(rs) THEN S
  ELSE TryMany(IF Retry(S.g.res[rs[i]]) THEN TryRes(S, rs[i]) ELSE S, rs, i + 1)

TryRes(S, r) ==
  IF S.try[r] THEN S
  ELSE [TryLoop([S EXCEPT !.try[r] = TRUE], r, 1) EXCEPT !.try[r] = FALSE]

TryLoop(S, r, i) ==
  LET q == S.rq[r] IN
  IF i > Len(q) THEN S
  ELSE IF S.g.res[r].hof /\ i > 1 THEN S
  ELSE IF S.g.res[r].hohp /\ q[i][2] # q[1][2] THEN S
  ELSE LET c == q[i][1]
           S1 == TryReq(S, c)
       IN IF InQ(S1.rq[r], c) THEN TryLoop(S1, r, i + 1) ELSE TryLoop(S1, r, 1)

ReleaseQ(S, c, r, q0, bumped) ==
  LET h == GetA(S.cla[c], r)
      q == IF q0 = 0 \/ q0 > h THEN h ELSE q0
      S1 == Log([S EXCEPT !.cl[r] = @ - q], <<IF bumped THEN "bump" ELSE "rel", c, r, q>>)
      S2 == IF h = q
            THEN LeaveCla([S1 EXCEPT !.cla[c] = DropA(@, r)], c, r)
            ELSE [S1 EXCEPT !.cla[c] = AddA(@, r, -q)]
  IN IF bumped THEN S2 ELSE TryRes(S2, r)

RECURSIVE ReleaseAll(_, _, _)
ReleaseAll(S, c, a) ==
  IF a = <<>> THEN S ELSE ReleaseAll(ReleaseQ(S, c, a[1][1], 0, FALSE), c, Tail(a))

-----------------------------------------------------------------------------
\* Failing of pending requests, waits, and store requests

RECURSIVE FailReq(_, _, _)
FailReq(S, c, a) == IF a = <<>> THEN S ELSE FailReq(LeaveReq(S, c, a[1][1]), c, Tail(a))

RECURSIVE RetryFlagged(_, _)
RetryFlagged(S, a) ==
  IF a = <<>> THEN S
  ELSE LET g == S.g.res[a[1][1]]
       IN RetryFlagged(IF g.hof \/ g.hohp THEN TryRes(S, a[1][1]) ELSE S, Tail(a))

LeaveWait(S, c, s) ==
  IF InQ(S.wq[s], c)
  THEN [S EXCEPT !.wq[s] = DropQ(@, c), !.a.wn[s] = @ + Bit(S.mon.s[s]), !.a.ws[s] = @ + Bit(S.mon.s[s]) * (S.now - EntQ(S.wq[s], c)[3])]
  ELSE S
RECURSIVE LeaveWaits(_, _, _)
LeaveWaits(S, c, w) == IF w = <<>> THEN S ELSE LeaveWaits(LeaveWait(S, c, w[1].s), c, Tail(w))

LeaveFs(S, c) ==
  LET at(q) == Has(S.fs[c], q) /\ InQ(S.fq[q], c) IN
  [S EXCEPT !.fq = [q \in DOMAIN @ |-> IF at(q) THEN DropQ(@[q], c) ELSE @[q]], !.fs[c] = <<>>,
            !.a.fn = [q \in DOMAIN @ |-> @[q] + Bit(at(q))],
            !.a.fs = [q \in DOMAIN @ |-> IF at(q) THEN @[q] + S.now - EntQ(S.fq[q], c)[3] ELSE @[q]]]
LeaveTs(S, c) ==
  LET at(q) == Has(S.ts[c], q) /\ InQ(S.tq[q], c) IN
  [S EXCEPT !.tq = [q \in DOMAIN @ |-> IF at(q) THEN DropQ(@[q], c) ELSE @[q]], !.ts[c] = <<>>,
            !.a.tn = [q \in DOMAIN @ |-> @[q] + Bit(at(q))],
            !.a.ts = [q \in DOMAIN @ |-> IF at(q) THEN @[q] + S.now - EntQ(S.tq[q], c)[3] ELSE @[q]]]

CheckFail(S, c) ==
  LET S1 == IF S.req[c] = <<>> THEN S
            ELSE RetryFlagged([FailReq(Log(S, <<"fail", c>>), c, S.req[c]) EXCEPT !.req[c] = <<>>, !.fl[c] = TRUE], S.req[c])
      S2 == IF S1.wt[c] = <<>> THEN S1
            ELSE [LeaveWaits(Log(S1, <<"fail", c>>), c, S1.wt[c]) EXCEPT !.wt[c] = <<>>, !.fl[c] = TRUE]
      S3 == IF S2.fs[c] = <<>> THEN S2 ELSE [LeaveFs(Log(S2, <<"fail", c>>), c) EXCEPT !.fl[c] = TRUE]
  IN IF S3.ts[c] = <<>> THEN S3 ELSE [LeaveTs(Log(S3, <<"fail", c>>), c) EXCEPT !.fl[c] = TRUE]

\* give up whatever the (not current) component was doing
Uninterrupt(S, c, x) == IF S.st[c] = "interrupted" THEN SetSt(S, c, x) ELSE S
Give(S, c) == IF S.st[c] = "current" THEN S ELSE CheckFail(Unlist(S, c), c)

-----------------------------------------------------------------------------
\* States

Holds(S, w) ==
  LET v == S.sv[w.s]
  IN CASE w.k = "eq" -> v = w.v
       [] w.k = "gt" -> v > w.v
       [] w.k = "ne" -> v # w.v
CondOk(S, c) ==
  LET w == S.wt[c]
  IN IF S.wall[c] THEN \A i \in 1..Len(w) : Holds(S, w[i]) ELSE \E i \in 1..Len(w) : Holds(S, w[i])

Awake(S, c) == S.st[c] # "interrupted" /\ S.wt[c] # <<>> /\ CondOk(S, c)
HonorWait(S, c) ==
  LET S1 == Unlist([LeaveWaits(S, c, S.wt[c]) EXCEPT !.wt[c] = <<>>], c)
  IN Reschedule(SetSt(S1, c, "scheduled"), c, S.now, 0, FALSE)

\* walk over the waiters w of a state, honoring at most m of them
RECURSIVE TryWaiters(_, _, _)
TryWaiters(S, w, m) ==
  IF w = <<>> \/ m = 0 THEN S
  ELSE LET c == w[1][1]
       IN IF Awake(S, c) THEN TryWaiters(HonorWait(S, c), Tail(w), m - 1) ELSE TryWaiters(S, Tail(w), m)

-----------------------------------------------------------------------------
\* Stores.  A filter is a sequence of item numbers; <<>> accepts every item.

Match(f, it) == f = <<>> \/ Has(f, it)

RECURSIVE ItemEnter(_, _, _, _)
RECURSIVE ItemLeave(_, _, _)

FirstMatch(S, q, it) ==        \* the first requester of store q that accepts item it (0: none)
  LET w == S.fq[q]
  IN IF \E i \in 1..Len(w) : Match(S.ff[w[i][1]], it)
     THEN w[CHOOSE i \in 1..Len(w) : Match(S.ff[w[i][1]], it) /\ \A j \in 1..(i - 1) : ~Match(S.ff[w[j][1]], it)][1]
     ELSE 0

GiveItem(S, c, q, it) ==       \* requester c (already out of the requesters queues) gets it from q
  LET S1 == Unlist([S EXCEPT !.fi[c] = it, !.fst[c] = q], c)
  IN Reschedule(SetSt(S1, c, "scheduled"), c, S.now, 0, FALSE)

ItemEnter(S, q, it, p) ==      \* store q is not full
  LET S1 == [S EXCEPT !.qi[q] = EnterQ(@, it, p, S.now), !.tr = Append(@, <<"ent", it, q>>)]
      c == FirstMatch(S1, q, it)
  IN IF c = 0 THEN S1 ELSE GiveItem(ItemLeave(LeaveFs(S1, c), q, it), c, q, it)

ItemLeave(S, q, it) ==
  LET S1 == [S EXCEPT !.qi[q] = DropQ(@, it), !.tr = Append(@, <<"lea", it, q>>), !.a.qn[q] = @ + Bit(S.mon.q[q]), !.a.qs[q] = @ + Bit(S.mon.q[q]) * (S.now - EntQ(S.qi[q], it)[3])]
  IN IF S1.qc[q] - Len(S1.qi[q]) > 0 /\ S1.tq[q] # <<>>
     THEN LET c == S1.tq[q][1][1]
              i2 == S1.ti[c]
              S2 == Unlist([LeaveTs(S1, c) EXCEPT !.ti[c] = 0, !.tst[c] = q], c)
              S3 == Reschedule(SetSt(S2, c, "scheduled"), c, S.now, 0, FALSE)
          IN ItemEnter(S3, q, i2, S1.tp[c])
     ELSE S1

FirstItem(S, q, f) ==          \* the first item of store q that filter f accepts (0: none)
  LET w == S.qi[q]
  IN IF \E i \in 1..Len(w) : Match(f, w[i][1])
     THEN w[CHOOSE i \in 1..Len(w) : Match(f, w[i][1]) /\ \A j \in 1..(i - 1) : ~Match(f, w[j][1])][1]
     ELSE 0

\* rescan: every waiting requester that now finds an item gets the first one
RECURSIVE Rescan(_, _, _)
Rescan(S, q, w) ==
  IF w = <<>> THEN S
  ELSE LET c == w[1][1]
           it == FirstItem(S, q, S.ff[c])
       IN IF ~InQ(S.fq[q], c) \/ it = 0 THEN Rescan(S, q, Tail(w))
          ELSE Rescan(GiveItem(ItemLeave(LeaveFs(S, c), q, it), c, q, it), q, Tail(w))

RECURSIVE RescanMany(_, _)
RescanMany(S, qs) == IF qs = <<>> THEN S ELSE RescanMany(Rescan(S, qs[1], S.fq[qs[1]]), Tail(qs))

\* after an increase of capacity: honor to_store requesters while there is room
RECURSIVE RescanTo(_, _, _)
RescanTo(S, q, w) ==
  IF w = <<>> THEN S
  ELSE LET c == w[1][1]
       IN IF ~InQ(S.tq[q], c) THEN RescanTo(S, q, Tail(w))
          ELSE IF S.qc[q] - Len(S.qi[q]) <= 0 THEN S
          ELSE LET it == S.ti[c]
                   S1 == ItemEnter(LeaveTs(S, c), q, it, S.tp[c])
                   S2 == Unlist([S1 EXCEPT !.ti[c] = 0, !.tst[c] = q], c)
               IN RescanTo(Reschedule(SetSt(S2, c, "scheduled"), c, S.now, 0, FALSE), q, Tail(w))

-----------------------------------------------------------------------------
\* The event loop

\* occupancy, in twelfths
Occ12(S, r) == IF S.cap[r] <= 0 THEN 0 ELSE (12 * S.cl[r]) \div S.cap[r]

\* advance the clock to t: every level quantity is integrated over the interval
Advance(S, t) ==
  LET d == t - S.now
  IN IF d = 0 THEN S
     ELSE [S EXCEPT !.now = t,
            !.a.rd = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r])],
            !.a.cl = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r]) * S.cl[r]],
            !.a.cap = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r]) * S.cap[r]],
            !.a.oc = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r]) * Occ12(S, r)],
            !.a.rl = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r]) * Len(S.rq[r])],
            !.a.kl = [r \in DOMAIN @ |-> @[r] + d * Bit(S.mon.r[r]) * Len(S.cq[r])],
            !.a.wd = [s \in DOMAIN @ |-> @[s] + d * Bit(S.mon.s[s])],
            !.a.sv = [s \in DOMAIN @ |-> @[s] + d * Bit(S.mon.s[s]) * S.sv[s]],
            !.a.wl = [s \in DOMAIN @ |-> @[s] + d * Bit(S.mon.s[s]) * Len(S.wq[s])],
            !.a.qd = [q \in DOMAIN @ |-> @[q] + d * Bit(S.mon.q[q])],
            !.a.ql = [q \in DOMAIN @ |-> @[q] + d * Bit(S.mon.q[q]) * Len(S.qi[q])],
            !.a.fl = [q \in DOMAIN @ |-> @[q] + d * Len(S.fq[q])],
            !.a.tl = [q \in DOMAIN @ |-> @[q] + d * Len(S.tq[q])],
            !.a.md = [c \in DOMAIN @ |-> IF S.mon.c[c] /\ S.md[c] \in 1..3 THEN [@[c] EXCEPT ![S.md[c]] = @ + d] ELSE @[c]],
            !.a.sd = [c \in DOMAIN @ |-> IF S.mon.c[c] THEN [@[c] EXCEPT ![S.st[c]] = @ + d] ELSE @[c]]]

SkipStandby(S, c) == c # 0 /\ S.g.skip[c]

Step(S) ==
  IF ~SkipStandby(S, S.cur) /\ S.pending # <<>>
  THEN LET c == Head(S.pending)
       IN [S EXCEPT !.pending = Tail(@), !.st[c] = "current", !.sch[c] = INF, !.cur = c, !.tr = Append(@, <<"at", c, Tm(S, S.now)>>),
                    !.pop = [t |-> S.now, p |-> 0, s |-> 0, c |-> c]]
  ELSE LET S1 == [S EXCEPT !.pending = @ \o S.standby, !.standby = <<>>]
       IN IF Listed(S1) = {}
          THEN [S1 EXCEPT !.cur = 0, !.st[0] = "current", !.sch[0] = INF, !.tr = Append(@, <<"at", 0, Tm(S, S.now)>>),
                          !.pop = [t |-> S.now, p |-> INF, s |-> 0, c |-> 0]]
          ELSE LET c == NextEv(S1)
                   S2 == [Advance(S1, S1.et[c]) EXCEPT !.on[c] = FALSE, !.cur = c, !.st[c] = "current", !.sch[c] = INF, !.tr = Append(@, <<"at", c, Tm(S, S1.et[c])>>),
                           !.pop = [t |-> S1.et[c], p |-> S1.ep[c], s |-> S1.es[c], c |-> c]]
               IN IF c = 0 THEN S2 ELSE CheckFail(S2, c)

-----------------------------------------------------------------------------
\* The public operations.  o is the operation record; o.c the component it is
\* called on (not necessarily the current one).

Err(S, e) == [S EXCEPT !.err = e]
IsData(S, c) == S.st[c] = "data"

\* a new process: optionally with the name of the method (m) and its argument (a)
NewProc(S, o) ==
  [S EXCEPT !.pm[o.c] = IF "m" \in DOMAIN o THEN o.m ELSE 0, !.pa[o.c] = IF "a" \in DOMAIN o THEN o.a ELSE 0, !.pk[o.c] = 0]

Do_create(S0, o) ==
  LET S == NewProc(S0, o) IN
  Reschedule([S EXCEPT !.tr = Append(@, <<"new", o.c, 0>>), !.st[o.c] = "scheduled", !.ct[o.c] = S.now, !.mt[o.c] = S.now], o.c, S.now + o.d, o.p, o.u)
\* a component without process
Do_createdata(S, o) == [S EXCEPT !.tr = Append(@, <<"new", o.c, 1>>), !.st[o.c] = "data", !.ct[o.c] = S.now, !.mt[o.c] = S.now]

Do_activate(S00, o) ==
  LET c == o.c
      S == IF IsData(S00, c) \/ "proc" \in DOMAIN o THEN NewProc(S00, o) ELSE S00
      S1 == IF S.st[c] = "current" THEN S
            ELSE LET S0 == Unlist(S, c) IN IF o.keep /\ ~IsData(S, c) /\ ~("proc" \in DOMAIN o) THEN S0 ELSE CheckFail(S0, c)
  IN Reschedule(SetSt(S1, c, "scheduled"), c, S.now + o.d, o.p, o.u)

\* activate(at=..., cap_now=True): a moment in the past is replaced by now
Do_activateat(S, o) ==
  LET S1 == IF IsData(S, o.c) THEN NewProc(S, o) ELSE Give(S, o.c)
  IN Reschedule(SetSt(S1, o.c, "scheduled"), o.c, Max2(S.now, o.t + S.off), o.p, o.u)

Do_hold(S, o) ==
  IF IsData(S, o.c) THEN Err(S, "ValueError")
  ELSE LET S1 == IF S.st[o.c] = "passive" THEN S ELSE Give(S, o.c)
       IN Reschedule(SetSt(S1, o.c, "scheduled"), o.c, S.now + o.d, o.p, o.u)

\* hold(till=...) of the current component
Do_holdtill(S, o) ==
  IF o.t + S.off < S.now /\ ~o.cap THEN Err(S, "ValueError")
  ELSE Reschedule(SetSt(S, o.c, "scheduled"), o.c, Max2(S.now, o.t + S.off), o.p, o.u)

\* hold(duration, interrupted=level)
Do_holdint(S, o) ==
  IF IsData(S, o.c) THEN Err(S, "ValueError")
  ELSE LET S1 == IF S.st[o.c] = "passive" THEN S ELSE Give(S, o.c)
       IN Log([S1 EXCEPT !.rd[o.c] = o.d, !.lv[o.c] = o.lv, !.st[o.c] = "interrupted"], <<"for", o.c, Tm(S, S.now + o.d), 0>>)

Do_passivate(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE LET S1 == Give(S, c)
           d == IF S.st[c] = "current" THEN 0 ELSE Sub(S.sch[c], S.now)
       IN Log([S1 EXCEPT !.rd[c] = d, !.sch[c] = INF, !.st[c] = "passive"], <<"pas", c>>)

Do_interrupt(S, o) ==
  LET c == o.c IN
  IF S.st[c] = "interrupted" THEN Log([S EXCEPT !.lv[c] = @ + 1], <<"int", c>>)
  ELSE IF S.st[c] # "scheduled" THEN Err(S, "ValueError")
  ELSE Log([Unlist(S, c) EXCEPT !.rd[c] = Sub(S.sch[c], S.now), !.lv[c] = 1, !.st[c] = "interrupted"], <<"int", c>>)

Do_resume(S, o) ==
  LET c == o.c IN
  IF S.st[c] # "interrupted" THEN Err(S, "ValueError")
  ELSE LET S1 == Log([S EXCEPT !.lv[c] = @ - 1], <<"res", c>>)
       IN IF S1.lv[c] # 0 /\ ~o.all THEN S1
          ELSE Reschedule(SetSt(S1, c, "scheduled"), c, Add(S.rd[c], S.now), o.p, o.u)

Do_cancel(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Log(S, <<"can", c>>)
  ELSE LET S1 == Give(S, c)
       IN Log([ReleaseAll(S1, c, S1.cla[c]) EXCEPT !.sch[c] = INF, !.st[c] = "data"], <<"can", c>>)

Do_standby(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE [Give(S, c) EXCEPT !.sch[c] = S.now, !.standby = Append(@, c), !.st[c] = "standby"]

\* the process of the current component ends
Do_end(S, o) ==
  LET c == S.cur
  IN Log([ReleaseAll(S, c, S.cla[c]) EXCEPT !.fi[c] = 0, !.ti[c] = 0, !.sch[c] = INF, !.st[c] = "data"], <<"end", c>>)

\* main gives control to the simulation
Do_run(S, o) ==
  IF o.t # -1 /\ o.t + S.off < S.now THEN Err([S EXCEPT !.eoe = FALSE], "ValueError")
  ELSE Reschedule([SetSt(S, 0, "scheduled") EXCEPT !.eoe = (o.t = -1 /\ o.d = -1)], 0,
                  IF o.t # -1 THEN o.t + S.off ELSE IF o.d = -1 THEN INF ELSE S.now + o.d, o.p, o.u)

\* the shown time becomes o.t; nothing else changes
Do_resetnow(S, o) == [S EXCEPT !.off = S.now - o.t]

\* switching the monitors of a resource, state, store or component on or off, and resetting them
Do_mon(S, o) ==
  CASE o.k = "r" -> [S EXCEPT !.mon.r[o.i] = o.b]
    [] o.k = "s" -> [S EXCEPT !.mon.s[o.i] = o.b]
    [] o.k = "q" -> [S EXCEPT !.mon.q[o.i] = o.b]
    [] o.k = "c" -> [S EXCEPT !.mon.c[o.i] = o.b]
Do_monreset(S, o) ==      \* o.b: 0, 1: also switched off, on
  LET i == o.i
      T == IF o.b \in {0, 1} THEN Do_mon(S, [o EXCEPT !.b = (@ = 1)]) ELSE S
  IN CASE o.k = "r" -> [T EXCEPT !.a.rd[i] = 0, !.a.cl[i] = 0, !.a.cap[i] = 0, !.a.oc[i] = 0, !.a.rl[i] = 0, !.a.kl[i] = 0,
                                 !.a.rn[i] = 0, !.a.rs[i] = 0, !.a.kn[i] = 0, !.a.ks[i] = 0]
       [] o.k = "s" -> [T EXCEPT !.a.wd[i] = 0, !.a.sv[i] = 0, !.a.wl[i] = 0, !.a.wn[i] = 0, !.a.ws[i] = 0]
       [] o.k = "q" -> [T EXCEPT !.a.qd[i] = 0, !.a.ql[i] = 0, !.a.qn[i] = 0, !.a.qs[i] = 0]
       [] o.k = "c" -> [T EXCEPT !.a.sd[i] = [x \in DOMAIN @ |-> 0], !.a.md[i] = [x \in DOMAIN @ |-> 0]]

\* the process raises an exception: it reaches the caller of run; nothing else is promised then
Do_raise(S, o) == Err(S, o.e)

Do_skip(S, o) == [S EXCEPT !.g.skip[o.c] = o.v]

Do_remdur(S, o) ==
  LET c == o.c IN
  IF S.st[c] \in {"passive", "interrupted"} THEN [S EXCEPT !.rd[c] = o.d]
  ELSE IF S.st[c] \in {"current", "standby"} THEN Err(S, "ValueError")
  ELSE Reschedule(Unlist(S, c), c, S.now + o.d, o.p, o.u)

\* --- resources

FailTime(S, o) == IF o.f = -1 THEN INF ELSE S.now + o.f

\* preemption: the claimers to be bumped by a request of quantity q with priority p,
\* from the last claimer towards the first
RECURSIVE Bumps(_, _, _, _, _)
Bumps(S, r, q, p, i) ==     \* i counts claimers from the back; result: [av, cs]
  IF i > Len(S.cq[r]) THEN [av |-> 0, cs |-> <<>>]
  ELSE LET e == S.cq[r][Len(S.cq[r]) + 1 - i]
           rest == Bumps(S, r, q - GetA(S.cla[e[1]], r), p, i + 1)
       IN IF q <= 0 \/ p >= e[2] THEN [av |-> 0, cs |-> <<>>]
          ELSE [av |-> GetA(S.cla[e[1]], r) + rest.av, cs |-> <<e[1]>> \o rest.cs]

RECURSIVE BumpAll(_, _, _)
BumpAll(S, r, cs) ==
  IF cs = <<>> THEN S
  ELSE LET S1 == ReleaseQ(S, cs[1], r, 0, TRUE)
       IN BumpAll(Do_activate(S1, [c |-> cs[1], d |-> 0, p |-> 0, u |-> FALSE, keep |-> FALSE]), r, Tail(cs))

Preempt(S, c, r, q, p) ==
  LET b == Bumps(S, r, q - Avail(S, r), p, 1)
  IN IF Avail(S, r) + b.av >= q THEN BumpAll(S, r, b.cs) ELSE S

RECURSIVE EnterReqs(_, _, _, _)
EnterReqs(S, c, a, i) ==
  IF i > Len(a) THEN S
  ELSE LET r == a[i].r
           S1 == [S EXCEPT !.tr = Append(@, <<"req", c, r, Abs(a[i].q)>>), !.req[c] = AddA(@, r, a[i].q),
                           !.rq[r] = IF InQ(@, c) THEN @ ELSE EnterQ(@, c, a[i].p, S.now)]
       IN EnterReqs(IF S.g.res[r].pre THEN Preempt(S1, c, r, a[i].q, a[i].p) ELSE S1, c, a, i + 1)

\* request / get / put: a is a sequence of [r, q, p]; put has negative q
Do_request(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE LET S1 == Uninterrupt([Give(S, c) EXCEPT !.fl[c] = FALSE, !.oneof[c] = o.oneof], c, "requesting")
           S2 == EnterReqs(S1, c, o.a, 1)
           ft == FailTime(S, o)
           S3 == TryReq([S2 EXCEPT !.rd[c] = Sub(ft, S.now)], c)
       IN IF o.a = <<>> THEN Reschedule(SetSt(S1, c, "scheduled"), c, S.now, 0, FALSE)      \* nothing to wait for
          ELSE IF S3.req[c] = <<>> THEN S3
          ELSE Reschedule(SetSt(S3, c, "requesting"), c, ft, o.p, o.u)

\* release of part of a claim by its holder
Do_release(S, o) ==
  IF ~InA(S.cla[o.c], o.r) THEN Err(S, "ValueError") ELSE ReleaseQ(S, o.c, o.r, o.q, FALSE)
RECURSIVE ReleaseList(_, _, _)
ReleaseList(S, c, a) ==
  IF a = <<>> THEN S
  ELSE IF ~InA(S.cla[c], a[1].r) THEN Err(S, "ValueError")
  ELSE ReleaseList(ReleaseQ(S, c, a[1].r, a[1].q, FALSE), c, Tail(a))
Do_releases(S, o) == ReleaseList(S, o.c, o.a)
Do_releaseall(S, o) == ReleaseAll(S, o.c, S.cla[o.c])

RECURSIVE ReleaseEach(_, _, _)
ReleaseEach(S, r, w) == IF w = <<>> THEN S ELSE ReleaseEach(
                          IF InA(S.cla[w[1][1]], r) THEN ReleaseQ(S, w[1][1], r, 0, FALSE) ELSE S, r, Tail(w))
\* Resource.release
Do_rrelease(S, o) ==
  LET r == o.r IN
  IF S.g.res[r].anon
  THEN LET q == IF o.q = 0 THEN S.cl[r] ELSE Min2(o.q, S.cl[r]) IN TryRes([S EXCEPT !.cl[r] = @ - q], r)
  ELSE ReleaseEach(S, r, S.cq[r])

Do_setcap(S, o) == TryRes([S EXCEPT !.cap[o.r] = o.v], o.r)

\* --- states

Do_set(S, o) ==
  IF S.sv[o.s] = o.v THEN Log(S, <<"set", o.s, o.v>>)
  ELSE LET S1 == [Log(S, <<"set", o.s, o.v>>) EXCEPT !.sv[o.s] = o.v] IN TryWaiters(S1, S1.wq[o.s], -1)

Do_trigger(S, o) ==      \* o.v2 = -1: back to the value before; o.m = -1: no maximum
  LET after == IF o.v2 = -1 THEN S.sv[o.s] ELSE o.v2
      S1 == [Log(S, <<"trg", o.s, o.v, after, o.m>>) EXCEPT !.sv[o.s] = o.v]
      S2 == [TryWaiters(S1, S1.wq[o.s], o.m) EXCEPT !.sv[o.s] = after]
  IN TryWaiters(S2, S2.wq[o.s], -1)

RECURSIVE EnterWaits(_, _, _)
EnterWaits(S, c, w) ==
  IF w = <<>> THEN S
  ELSE EnterWaits([S EXCEPT !.wq[w[1].s] = IF InQ(@, c) THEN @ ELSE EnterQ(@, c, w[1].p, S.now)], c, Tail(w))

Do_wait(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE \* wait_for (o.wf): a condition that is evaluated whenever one of the states changes; all waiters
       \* queues are entered with the same priority
       LET S1 == Uninterrupt([Give(S, c) EXCEPT !.fl[c] = FALSE, !.wall[c] = o.all, !.wt[c] = o.w], c, "waiting")
           S2 == EnterWaits(S1, c, o.w)
           ft == FailTime(S, o)
           S3 == [S2 EXCEPT !.rd[c] = Sub(ft, S.now)]
       IN IF Awake(S3, c) THEN HonorWait(S3, c)
          ELSE Reschedule(SetSt(S3, c, "waiting"), c, ft, o.p, o.u)

\* --- stores

\* the item that from_store finds: <<store, item>> (<<0, 0>>: none).  Without key, the first
\* matching item of the first store that has one; with key, the (first) item with the least key.
\* The key of item i is o.key[i].
Found(S, o) ==
  LET qs == o.qs
      L(i) == S.qi[qs[i]]
      All == {<<i, j>> \in (1..Len(qs)) \X (1..10) : j <= Len(L(i)) /\ Match(o.fl, L(i)[j][1])}
      It(x) == L(x[1])[x[2]][1]
      Bef(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
      K(x) == IF o.key = <<>> THEN 0 ELSE o.key[It(x)]
  IN IF All = {} THEN <<0, 0>>
     ELSE LET b == CHOOSE x \in All : \A y \in All : x = y \/ K(x) < K(y) \/ (K(x) = K(y) /\ Bef(x, y))
          IN <<qs[b[1]], It(b)>>

EnterAll(f, qs, c, p, t) == [q \in DOMAIN f |-> IF Has(qs, q) THEN EnterQ(f[q], c, p, t) ELSE f[q]]

Do_fromstore(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE LET S1 == [Give(S, c) EXCEPT !.fl[c] = FALSE]
           x == Found(S1, o)
       IN IF x[1] # 0
          THEN GiveItem(ItemLeave(S1, x[1], x[2]), c, x[1], x[2])
          ELSE Reschedule([S1 EXCEPT !.fs[c] = o.qs, !.fq = EnterAll(@, o.qs, c, o.rp, S.now),
                                     !.st[c] = "requesting", !.fi[c] = 0, !.ff[c] = o.fl],
                          c, FailTime(S, o), o.p, o.u)

Room(S, qs) == {i \in 1..Len(qs) : S.qc[qs[i]] - Len(S.qi[qs[i]]) > 0}

Do_tostore(S, o) ==
  LET c == o.c IN
  IF IsData(S, c) THEN Err(S, "ValueError")
  ELSE LET S1 == [Give(S, c) EXCEPT !.fl[c] = FALSE]
           m == Room(S1, o.qs)
       IN IF m # {}
          THEN LET q == o.qs[CHOOSE i \in m : \A j \in m : i <= j]
                   S2 == [ItemEnter(S1, q, o.i, o.ip) EXCEPT !.ti[c] = 0, !.tst[c] = q]
               IN Reschedule(SetSt(Unlist(S2, c), c, "scheduled"), c, S.now, 0, FALSE)
          ELSE Reschedule([S1 EXCEPT !.ts[c] = o.qs, !.tq = EnterAll(@, o.qs, c, o.rp, S.now),
                                     !.st[c] = "requesting", !.ti[c] = o.i, !.tp[c] = o.ip],
                          c, FailTime(S, o), o.p, o.u)

Do_filter(S, o) == RescanMany([S EXCEPT !.ff[o.c] = o.fl], S.fs[o.c])
Do_rescan(S, o) == Rescan(S, o.q, S.fq[o.q])

Do_setqcap(S, o) ==
  LET S1 == [S EXCEPT !.qc[o.q] = o.v]
  IN IF o.v >= S.qc[o.q] THEN RescanTo(S1, o.q, S1.tq[o.q]) ELSE S1

Do_ienter(S, o) ==
  IF InQ(S.qi[o.q], o.i) THEN Err(S, "ValueError")
  ELSE IF S.qc[o.q] - Len(S.qi[o.q]) <= 0 THEN Err(S, "QueueFullError")
  ELSE ItemEnter(S, o.q, o.i, o.p)
Do_ileave(S, o) ==
  IF ~InQ(S.qi[o.q], o.i) THEN Err(S, "ValueError") ELSE ItemLeave(S, o.q, o.i)

-----------------------------------------------------------------------------
DoOp(S0, o) ==
  LET S == [S0 EXCEPT !.err = ""] IN
  CASE o.op = "create" -> Do_create(S, o)
    [] o.op = "activate" -> Do_activate(S, o)
    [] o.op = "activateat" -> Do_activateat(S, o)
    [] o.op = "hold" -> Do_hold(S, o)
    [] o.op = "holdtill" -> Do_holdtill(S, o)
    [] o.op = "holdint" -> Do_holdint(S, o)
    [] o.op = "passivate" -> Do_passivate(S, o)
    [] o.op = "interrupt" -> Do_interrupt(S, o)
    [] o.op = "resume" -> Do_resume(S, o)
    [] o.op = "cancel" -> Do_cancel(S, o)
    [] o.op = "standby" -> Do_standby(S, o)
    [] o.op = "end" -> Do_end(S, o)
    [] o.op = "run" -> Do_run(S, o)
    [] o.op = "remdur" -> Do_remdur(S, o)
    [] o.op = "request" -> Do_request(S, o)
    [] o.op = "release" -> Do_release(S, o)
    [] o.op = "releases" -> Do_releases(S, o)
    [] o.op = "releaseall" -> Do_releaseall(S, o)
    [] o.op = "rrelease" -> Do_rrelease(S, o)
    [] o.op = "setcap" -> Do_setcap(S, o)
    [] o.op = "set" -> Do_set(S, o)
    [] o.op = "trigger" -> Do_trigger(S, o)
    [] o.op = "wait" -> Do_wait(S, o)
    [] o.op = "fromstore" -> Do_fromstore(S, o)
    [] o.op = "tostore" -> Do_tostore(S, o)
    [] o.op = "filter" -> Do_filter(S, o)
    [] o.op = "rescan" -> Do_rescan(S, o)
    [] o.op = "setqcap" -> Do_setqcap(S, o)
    [] o.op = "ienter" -> Do_ienter(S, o)
    [] o.op = "ileave" -> Do_ileave(S, o)
    [] o.op = "createdata" -> Do_createdata(S, o)
    [] o.op = "resetnow" -> Do_resetnow(S, o)
    [] o.op = "skip" -> Do_skip(S, o)
    [] o.op = "mon" -> Do_mon(S, o)
    [] o.op = "monreset" -> Do_monreset(S, o)
    [] o.op = "raise" -> Do_raise(S, o)
    [] o.op = "onmain" -> Err(S, "ValueError")      \* the main component cannot wait, request or stand by
    [] o.op = "nop" -> S

\* calls that take a mode: it is set (with the moment) when the call is not refused
ModeSet(S, o, T) ==
  IF "md" \in DOMAIN o /\ T.err = "" /\ ~(o.op = "cancel" /\ IsData(S, o.c))
  THEN [T EXCEPT !.md[o.c] = o.md, !.mt[o.c] = S.now] ELSE T

\* one operation by the current component (or main), followed, when it gave up
\* control, by the step of the event loop that makes the next component current
Apply(S, o) ==
  LET S1 == ModeSet(S, o, DoOp(IF o.op = "nop" THEN [S EXCEPT !.tr = <<>>] ELSE [S EXCEPT !.pk[S.cur] = @ + 1, !.tr = <<>>], o)) IN IF S1.st[S1.cur] = "current" THEN S1 ELSE Step(S1)

-----------------------------------------------------------------------------
\* What user code can observe (through the public interface)

RemDur(S, c) ==
  CASE S.st[c] \in {"passive", "interrupted"} -> S.rd[c]
    [] S.st[c] \in {"scheduled", "waiting", "requesting"} -> Sub(S.sch[c], S.now)
    [] OTHER -> 0

Lv(S, c) == IF S.st[c] = "interrupted" THEN S.lv[c] ELSE 0

TmQ(S, Q) == [k \in DOMAIN Q |-> [i \in 1..Len(Q[k]) |-> <<Q[k][i][1], Q[k][i][2], Tm(S, Q[k][i][3])>>]]
\* when does the next component become current
Peek(S) == IF S.pending # <<>> THEN S.now
           ELSE IF Listed(S) # {} THEN S.et[NextEv(S)]
           ELSE IF S.eoe THEN S.now ELSE INF

Obs(S) ==
  [ now |-> Tm(S, S.now), peek |-> Tm(S, Peek(S)), cur |-> S.cur, err |-> S.err,
    tr |-> S.tr,
    mn |-> <<S.st[0], IF S.st[0] = "current" THEN INF ELSE Tm(S, S.sch[0])>>,
    pr |-> IF S.cur = 0 THEN <<>> ELSE <<S.pm[S.cur], S.pa[S.cur], S.pk[S.cur]>>,
    st |-> [c \in Comps(S) |-> S.st[c]],
    sch |-> [c \in Comps(S) |-> Tm(S, S.sch[c])],
    pri |-> [c \in Comps(S) |-> IF S.on[c] THEN S.ep[c] ELSE NOPRIO],
    rem |-> [c \in Comps(S) |-> RemDur(S, c)],
    lev |-> [c \in Comps(S) |-> Lv(S, c)],
    fail |-> [c \in Comps(S) |-> S.fl[c]],
    ct |-> [c \in Comps(S) |-> IF S.st[c] = "none" THEN 0 ELSE Tm(S, S.ct[c])],
    md |-> [c \in Comps(S) |-> S.md[c]],
    mt |-> [c \in Comps(S) |-> IF S.st[c] = "none" THEN 0 ELSE Tm(S, S.mt[c])],
    sd |-> [c \in Comps(S) |-> <<S.a.sd[c]["scheduled"], S.a.sd[c]["passive"], S.a.sd[c]["requesting"],
                                S.a.sd[c]["waiting"], S.a.sd[c]["standby"], S.a.sd[c]["interrupted"], S.a.sd[c]["data"],
                                S.a.md[c][1], S.a.md[c][2], S.a.md[c][3]>>],
    \* resources
    req |-> [c \in Comps(S) |-> S.req[c]],
    cla |-> [c \in Comps(S) |-> S.cla[c]],
    rq |-> TmQ(S, S.rq), cq |-> TmQ(S, S.cq), cl |-> S.cl, cap |-> S.cap,
    av |-> [r \in Ress(S) |-> Avail(S, r)],
    ra |-> [r \in Ress(S) |-> <<S.a.rd[r], S.a.cl[r], S.a.cap[r], S.a.cap[r] - S.a.cl[r], S.a.oc[r], S.a.rl[r], S.a.kl[r]>>],
    rlos |-> [r \in Ress(S) |-> <<S.a.rn[r], S.a.rs[r], S.a.kn[r], S.a.ks[r]>>],
    \* states
    sv |-> S.sv, wq |-> TmQ(S, S.wq),
    sa |-> [s \in Sts(S) |-> <<S.a.wd[s], S.a.sv[s], S.a.wl[s], S.a.wn[s], S.a.ws[s]>>],
    \* stores
    qi |-> TmQ(S, S.qi), fq |-> TmQ(S, S.fq), tq |-> TmQ(S, S.tq),
    qav |-> [q \in Stos(S) |-> Sub(S.qc[q], Len(S.qi[q]))],
    qa |-> [q \in Stos(S) |-> <<S.a.qd[q], S.a.ql[q], S.a.qn[q], S.a.qs[q], S.a.fl[q], S.a.fn[q], S.a.fs[q], S.a.tl[q], S.a.tn[q], S.a.ts[q]>>],
    fi |-> [c \in Comps(S) |-> S.fi[c]],
    fst |-> [c \in Comps(S) |-> S.fst[c]], tst |-> [c \in Comps(S) |-> S.tst[c]] ]
=============================================================================
