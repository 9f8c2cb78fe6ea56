------------------------------ MODULE SalabimGen ------------------------------
(***************************************************************************)
(* Component generators: which components are made, and when, for every     *)
(* combination of start, end, number, inter arrival times, disturbances,     *)
(* equidistant and random spread generation and explicit moments, also when  *)
(* the shown time is reset in between.                                        *)
(*                                                                           *)
(* S = [now, off, gs, err]; a generator is                                    *)
(*   k     "iat" | "dist" | "list" (a list of remaining moments)               *)
(*   next  time of its next event (INF: none left), fin: that event is its end *)
(*   till, num, n  (limits and the number made so far)                         *)
(*   iats, ii, ds, di   samples (used cyclically) and the next one to be used  *)
(*   ms    remaining moments;   made, start, ends   moments (internal time)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000
NONE == -900002

InitState(G) == [now |-> 0, off |-> 0, gs |-> <<>>, err |-> ""]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF x < s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE SortSeq1(_)
SortSeq1(s) == IF s = <<>> THEN <<>> ELSE Ins(SortSeq1(Tail(s)), s[1])

At(s, i) == s[((i - 1) % Len(s)) + 1]        \* samples are used cyclically

-----------------------------------------------------------------------------
\* one event of generator g, at time g.next
Make(g, t, a) == [g EXCEPT !.made = Append(@, t), !.start = Ins(@, a), !.n = @ + 1]
Over(g, t) == [g EXCEPT !.ends = Append(@, t), !.next = INF]

Event(g) ==
  LET t == g.next IN
  IF g.fin THEN Over(g, t)
  ELSE CASE g.k = "iat" ->
              LET h == Make(g, t, t)
                  u == t + At(g.iats, g.ii)
              IN IF h.n >= h.num THEN Over(h, t)
                 ELSE IF u > g.till THEN [h EXCEPT !.ii = @ + 1, !.next = g.till, !.fin = TRUE]
                 ELSE [h EXCEPT !.ii = @ + 1, !.next = u]
         [] g.k = "dist" ->
              LET iat == At(g.iats, g.ii)
                  a == t + (IF g.fa THEN 0 ELSE iat) + At(g.ds, g.di)
                  g1 == [g EXCEPT !.ii = @ + 1, !.di = @ + 1]
                  h == Make(g1, t, a)
              IN IF a > g.till THEN [g1 EXCEPT !.next = Max2(t, g.till), !.fin = TRUE]
                 ELSE IF h.n >= h.num THEN Over(h, t)
                 ELSE [h EXCEPT !.next = t + iat]
         [] g.k = "list" ->
              LET h == [Make(g, t, t) EXCEPT !.ms = Tail(@)]
              IN IF h.ms = <<>> THEN Over(h, t) ELSE [h EXCEPT !.next = h.ms[1]]

RECURSIVE Until(_, _)
Until(g, t) == IF g.next <= t THEN Until(Event(g), t) ELSE g

-----------------------------------------------------------------------------
\* creation.  o: [k, at, delay, till, dur, num, iats, ds, fa, ft, us, ms]  (NONE: not given)
\*   k = "iat", "equi", "spread", "moments";  us: samples u of 0..8, standing for u/8
Err(S, e) == [S EXCEPT !.err = e]

G0(at) == [k |-> "iat", next |-> at, fin |-> FALSE, till |-> INF, num |-> INF, n |-> 0, iats |-> <<1>>, ii |-> 1, ds |-> <<>>, di |-> 1,
           fa |-> FALSE, ms |-> <<>>, made |-> <<>>, start |-> <<>>, ends |-> <<>>]

\* linear interpolation of x from a..b to c..d (exact in the cases that are generated)
Lin(x, a, b, c, d) == c + ((x - a) * (d - c)) \div (b - a)

Do_gen(S, o) ==
  LET at == IF o.at # NONE THEN o.at + S.off ELSE S.now + (IF o.delay = NONE THEN 0 ELSE o.delay)
      till == IF o.till # NONE THEN o.till + S.off ELSE IF o.dur # NONE THEN at + o.dur ELSE INF
      num == IF o.num = NONE THEN INF ELSE o.num
      add(g) == IF g.next < S.now THEN Err(S, "ValueError") ELSE [S EXCEPT !.gs = Append(@, g)]
      smp == SortSeq1([i \in 1..o.num |-> at + ((till - at) * At(o.us, i)) \div 8])
      first == IF o.fa THEN at ELSE smp[1]
      last == IF o.ft THEN till ELSE smp[Len(smp)]
      spread == IF ~o.fa /\ ~o.ft THEN smp
                ELSE IF num = 1 THEN <<IF o.fa THEN at ELSE till>>
                ELSE [i \in 1..Len(smp) |-> Lin(smp[i], smp[1], smp[Len(smp)], first, last)]
      mom == SortSeq1([i \in 1..Len(o.ms) |-> o.ms[i] + S.off])
      start == IF o.fa \/ o.ds # <<>> THEN at ELSE at + o.iats[1]
      g == [G0(at) EXCEPT !.till = till, !.num = num]
  IN IF o.k = "moments" THEN add([g EXCEPT !.k = "list", !.ms = mom, !.next = mom[1], !.till = INF])
     ELSE IF (o.at # NONE /\ o.delay # NONE) \/ (o.till # NONE /\ o.dur # NONE) \/ till < at THEN Err(S, "ValueError")
     ELSE IF num = 0 THEN [S EXCEPT !.gs = Append(@, [g EXCEPT !.next = INF])]
     ELSE CASE o.k = "spread" ->
                 IF till = INF \/ num = INF \/ (num = 1 /\ o.fa /\ o.ft) THEN Err(S, "ValueError")
                 ELSE add([g EXCEPT !.k = "list", !.ms = spread, !.next = spread[1]])
            [] o.k = "equi" ->
                 IF till = INF \/ num = 1 THEN Err(S, "ValueError")
                 ELSE add([g EXCEPT !.iats = <<(till - at) \div (num - 1)>>, !.till = INF])
            [] o.k = "iat" ->
                 IF o.ft THEN Err(S, "ValueError")
                 ELSE IF start > till THEN add([g EXCEPT !.next = till, !.fin = TRUE])
                 ELSE IF o.ds # <<>> THEN add([g EXCEPT !.k = "dist", !.iats = o.iats, !.ds = o.ds, !.fa = o.fa, !.next = at])
                 ELSE add([g EXCEPT !.iats = o.iats, !.ii = IF o.fa THEN 1 ELSE 2, !.next = start])

Do_adv(S, o) ==
  LET t == S.now + o.d IN [S EXCEPT !.now = t, !.gs = [i \in 1..Len(S.gs) |-> Until(S.gs[i], t)]]
Do_cancel(S, o) == [S EXCEPT !.gs[o.g].next = INF]

Apply(S0, o) ==
  LET S == [S0 EXCEPT !.err = ""] IN
  CASE o.op = "gen" -> Do_gen(S, o)
    [] o.op = "adv" -> Do_adv(S, o)
    [] o.op = "resetnow" -> [S EXCEPT !.off = S.now - o.t]
    [] o.op = "cancel" -> Do_cancel(S, o)

-----------------------------------------------------------------------------
Obs(S) ==
  [now |-> S.now - S.off, err |-> S.err,
   gs |-> [i \in 1..Len(S.gs) |->
             LET g == S.gs[i] IN
             [st |-> IF g.next = INF THEN "data" ELSE "scheduled",
              sch |-> IF g.next = INF THEN INF ELSE g.next - S.off,
              made |-> g.made, start |-> SelectSeq(g.start, LAMBDA x : x <= S.now), ends |-> g.ends]]]

\* what a user relies on, whatever the parameters
StateViolations(S) ==
  UNION {LET g == S.gs[i] IN
    (IF g.n = Len(g.made) /\ g.n <= g.num THEN {} ELSE {"Number"})
    \cup (IF \A j \in 1..Len(g.start) : g.start[j] <= g.till THEN {} ELSE {"Till"})
    \cup (IF Len(g.ends) <= 1 /\ (Len(g.ends) = 1 => g.next = INF) THEN {} ELSE {"EndOnce"})
    \cup (IF \A j \in 1..(Len(g.made) - 1) : g.made[j] <= g.made[j + 1] THEN {} ELSE {"Ordered"})
    : i \in 1..Len(S.gs)}
StepViolations(S, o, T) == IF T.now >= S.now THEN {} ELSE {"TimeMonotone"}
=============================================================================
