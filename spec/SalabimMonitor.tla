---------------------------- MODULE SalabimMonitor ----------------------------
(***************************************************************************)
(* Monitors: level monitors (a step function of time), non level monitors   *)
(* (weighted observations), stats_only monitors, and the monitors derived   *)
(* from them (slices, merges, maps, products, frozen copies), with all       *)
(* statistics as exact integer functions of the recorded history.            *)
(*                                                                          *)
(* State S = [now, off, ms, err, ans].  now is the internal clock, off what  *)
(* reset_now took away from it.  A monitor is a record                       *)
(*   [lv, so, on, gen, val, tt, start, x, fz, fc, ty]                        *)
(* lv: level; so: stats_only; gen: derived (cannot be tallied any more);     *)
(* val, tt: last tallied value and its time; x: history of <<t, x, w>>;      *)
(* fz: <<>> or <<now, off, id>> (frozen);                                   *)
(* fc: val and tt are meaningful (not sliced, merged or mapped).             *)
(*                                                                          *)
(* Values: Int; 1000..1999 are non numeric strings, 2000..2999 strings that  *)
(* look like a number.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

INF == 1000000
OFF == -900000          \* the monitor is off
NAN == 900001           \* not a number
NONE == -900002         \* argument not given

Num(v) == IF v >= 2000 /\ v < 3000 THEN v - 2000 ELSE IF v >= 1000 /\ v < 2000 THEN 0 ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

-----------------------------------------------------------------------------
NewMon(S, d) ==    \* d: [lv, so, on, init, ty, fill]
  LET v0 == IF d.lv THEN d.init ELSE 0 IN
  [lv |-> d.lv, so |-> d.so, on |-> d.on, gen |-> FALSE, val |-> v0, tt |-> S.now, start |-> S.now,
   x |-> IF d.lv THEN <<<<S.now, IF d.on THEN v0 ELSE OFF, 1>>>> ELSE [i \in 1..Len(d.fill) |-> <<S.now, d.fill[i], 1>>],
   fz |-> <<>>, fc |-> TRUE, ty |-> d.ty]

InitState(g) == LET S0 == [now |-> 0, off |-> 0, ms |-> <<>>, err |-> "", ans |-> <<>>]
                IN [S0 EXCEPT !.ms = [i \in 1..Len(g.ms) |-> NewMon(S0, g.ms[i])]]

NowOf(S, M) == IF M.fz = <<>> THEN S.now ELSE M.fz[1]
OffOf(S, M) == IF M.fz = <<>> THEN S.off ELSE M.fz[2]

\* history with the entry of time t (level): a second tally at the same time replaces the first
Put(x, t, v) == IF x # <<>> /\ x[Len(x)][1] = t
                THEN [x EXCEPT ![Len(x)] = <<t, v, 1>>]
                ELSE Append(x, <<t, v, 1>>)

\* segments <<x, from, to>> of a level monitor, without the off periods
Segs(S, M) ==
  LET n == Len(M.x)
      all == [i \in 1..n |-> <<M.x[i][2], M.x[i][1], IF i < n THEN M.x[i + 1][1] ELSE NowOf(S, M)>>]
  IN SelectSeq(all, LAMBDA s : s[1] # OFF)

\* <<x, weight>> pairs that statistics are based on.  For stats_only level monitors, and derived monitors, a value
\* that did not last does not count
Pairs(S, M, ex0, numeric) ==
  LET raw == IF M.lv THEN [i \in 1..Len(Segs(S, M)) |-> LET s == Segs(S, M)[i] IN <<s[1], s[3] - s[2]>>]
             ELSE [i \in 1..Len(M.x) |-> <<M.x[i][2], M.x[i][3]>>]
      nm == IF numeric THEN [i \in 1..Len(raw) |-> <<Num(raw[i][1]), raw[i][2]>>] ELSE raw
      pos == IF M.lv /\ (M.so \/ ~M.fc) THEN SelectSeq(nm, LAMBDA p : p[2] > 0) ELSE nm
  IN IF ex0 THEN SelectSeq(pos, LAMBDA p : p[1] # 0) ELSE pos

SumW(P) == SumSeq([i \in 1..Len(P) |-> P[i][2]])
SumXW(P) == SumSeq([i \in 1..Len(P) |-> P[i][1] * P[i][2]])
SumXXW(P) == SumSeq([i \in 1..Len(P) |-> P[i][1] * P[i][1] * P[i][2]])
Xs(P) == {P[i][1] : i \in 1..Len(P)}

\* segments, equal neighbours joined, those without duration dropped
RECURSIVE Join(_, _)
Join(s, acc) ==
  IF s = <<>> THEN acc
  ELSE IF s[1][2] = s[1][3] THEN Join(Tail(s), acc)
  ELSE LET n == Len(acc)
       IN IF n > 0 /\ acc[n][1] = s[1][1] /\ acc[n][3] = s[1][2]
          THEN Join(Tail(s), [acc EXCEPT ![n] = <<acc[n][1], acc[n][2], s[1][3]>>])
          ELSE Join(Tail(s), Append(acc, s[1]))

Stat(P) ==   \* <<count, total weight, mean * weight, variance * weight^2, minimum, maximum>>
  LET w == SumW(P) IN
  <<w, IF w = 0 THEN NAN ELSE SumXW(P), IF w = 0 THEN NAN ELSE w * SumXXW(P) - SumXW(P) * SumXW(P),
    IF P = <<>> THEN NAN ELSE Min(Xs(P)), IF P = <<>> THEN NAN ELSE Max(Xs(P))>>

ObsMon(S, M) ==
  LET P == Pairs(S, M, FALSE, TRUE)
      P0 == Pairs(S, M, TRUE, TRUE)
  IN [on |-> M.on, so |-> M.so,
      val |-> IF M.lv /\ M.fc THEN M.val ELSE 0,
      tt |-> IF M.lv /\ M.fc THEN M.tt ELSE 0,
      start |-> IF M.gen THEN 0 ELSE M.start - S.off,
      a |-> Stat(P), a0 |-> Stat(P0), z |-> SumW(P) - SumW(P0),
      n |-> IF M.lv THEN 0 ELSE Len(P), n0 |-> IF M.lv THEN 0 ELSE Len(P0),
      seg |-> IF M.so THEN <<>> ELSE IF M.lv THEN Join(Segs(S, M), <<>>)
              ELSE M.x]

Obs(S) == [now |-> S.now - S.off, err |-> S.err, ans |-> S.ans, ms |-> [i \in 1..Len(S.ms) |-> ObsMon(S, S.ms[i])]]

-----------------------------------------------------------------------------
Err(S, e) == [S EXCEPT !.err = e]
Ans(S, a) == [S EXCEPT !.ans = a]

Do_adv(S, o) == [S EXCEPT !.now = @ + o.d]
Do_resetnow(S, o) == [S EXCEPT !.off = S.now - o.t]
Do_create(S, o) == [S EXCEPT !.ms = Append(@, NewMon(S, o.d))]

Do_tally(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.gen THEN Err(S, "TypeError")
  ELSE IF M.lv THEN
    IF o.w # 1 THEN Err(S, "ValueError")
    ELSE [S EXCEPT !.ms[o.m] = [M EXCEPT !.val = o.v, !.tt = S.now, !.x = IF M.on THEN Put(@, S.now, o.v) ELSE @]]
  ELSE IF ~M.on THEN S
  ELSE [S EXCEPT !.ms[o.m] = [M EXCEPT !.x = Append(@, <<S.now, o.v, o.w>>)]]

\* tally of the value that stands for "off"
Do_tallyoff(S, o) == Err(S, IF S.ms[o.m].gen THEN "TypeError" ELSE "ValueError")

SetOn(S, M, b) ==
  IF ~M.lv THEN [M EXCEPT !.on = b]
  ELSE IF b THEN [M EXCEPT !.on = TRUE, !.x = Put(@, S.now, M.val), !.tt = IF M.so THEN @ ELSE S.now]
  ELSE [M EXCEPT !.on = FALSE, !.x = Put(@, S.now, OFF)]

Do_mon(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.gen THEN (IF o.b THEN Err(S, "TypeError")
                 ELSE LET T == [S EXCEPT !.ms[o.m].on = FALSE] IN IF M.lv THEN Err(T, "TypeError") ELSE T)
  ELSE [S EXCEPT !.ms[o.m] = SetOn(S, M, o.b)]

Do_reset(S, o) ==   \* o.b, o.so: TRUE/FALSE or "none"
  LET M == S.ms[o.m] IN
  IF M.gen THEN Err(S, "TypeError")
  ELSE LET on == IF o.b = NONE THEN M.on ELSE o.b = 1
           so == IF o.s = NONE THEN M.so ELSE o.s = 1
       IN [S EXCEPT !.ms[o.m] = [M EXCEPT !.on = on, !.so = so, !.start = S.now,
             !.tt = IF o.b = 1 /\ ~so THEN S.now ELSE @,
             !.x = IF M.lv THEN <<<<S.now, IF on THEN M.val ELSE OFF, 1>>>> ELSE <<>>]]

-----------------------------------------------------------------------------
\* derived monitors
RECURSIVE ValAt(_, _, _)
ValAt(x, t, i) == IF i = 0 THEN OFF ELSE IF x[i][1] <= t THEN x[i][2] ELSE ValAt(x, t, i - 1)
Value(M, t) == ValAt(M.x, t, Len(M.x))

Times(M) == {M.x[i][1] : i \in 1..Len(M.x)}
Sorted(T) == SetToSortSeq(T, LAMBDA a, b : a < b)

Derived(M, x) == [M EXCEPT !.gen = TRUE, !.on = FALSE, !.so = FALSE, !.fc = FALSE, !.x = x]
AddMon(S, M) == [S EXCEPT !.ms = Append(@, M)]

\* a derived level monitor: value f(t) at each of the times T before the end, then off
FromTimes(T, end, f(_)) ==
  LET ts == Sorted({t \in T : t < end})
  IN [i \in 1..(Len(ts) + 1) |-> IF i <= Len(ts) THEN <<ts[i], f(ts[i]), 1>> ELSE <<end, OFF, 1>>]

FirstT(M) == IF M.x = <<>> THEN M.start ELSE M.x[1][1]

\* windows [a, b) of a slice; b = INF: up to and including now
Windows(S, M, o) ==
  LET off == OffOf(S, M)
      a == IF o.a = NONE THEN -INF ELSE o.a + off
      b == IF o.b = NONE THEN INF ELSE o.b + off
      t0 == FirstT(M)
      now == NowOf(S, M)
  IN IF o.k = NONE THEN {<<a, b>>}
     ELSE LET first == t0 - ((t0 - a) % o.k)
          IN {<<first + j * o.k, first + j * o.k + (b - a)>> : j \in 0..((now - first) \div o.k)}
InWindow(W, t) == \E w \in W : w[1] <= t /\ t < w[2]

Do_slice(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.so THEN Err(S, "NotImplementedError")
  ELSE IF o.k # NONE /\ (o.a = NONE \/ o.b = NONE) THEN Err(S, "TypeError")
  ELSE IF o.k # NONE /\ (o.b <= o.a \/ o.b - o.a >= o.k) THEN Err(S, "ValueError")
  ELSE LET W == Windows(S, M, o)
           now == NowOf(S, M)
           T == Times(M) \cup {t \in UNION {{w[1], w[2]} : w \in W} : t > FirstT(M)}
       IN AddMon(S, Derived(M, IF M.lv THEN FromTimes(T, now, LAMBDA t : IF InWindow(W, t) THEN Value(M, t) ELSE OFF)
                               ELSE SelectSeq(M.x, LAMBDA e : InWindow(W, e[1]))))

Env(M) == IF M.fz = <<>> THEN 0 ELSE M.fz[3]

\* common precondition of merge and x_map
MixErr(S, ms) ==
  IF \E i \in 1..Len(ms) : S.ms[ms[i]].so THEN "NotImplementedError"
  ELSE IF \E i \in 1..Len(ms) : S.ms[ms[i]].lv # S.ms[ms[1]].lv \/ Env(S.ms[ms[i]]) # Env(S.ms[ms[1]]) THEN "TypeError"
  ELSE ""

\* entries of all monitors in order of time, at equal times in the order of the monitors
RECURSIVE MergeX(_)
MergeX(xs) ==     \* xs: sequence of histories
  IF \A i \in 1..Len(xs) : xs[i] = <<>> THEN <<>>
  ELSE LET C == {i \in 1..Len(xs) : xs[i] # <<>>}
           i == CHOOSE i \in C : \A j \in C : xs[i][1][1] < xs[j][1][1] \/ (xs[i][1][1] = xs[j][1][1] /\ i <= j)
       IN <<xs[i][1]>> \o MergeX([xs EXCEPT ![i] = Tail(@)])

RECURSIVE SumOver(_, _, _)
SumOver(S, ms, t) == IF ms = <<>> THEN 0 ELSE Num(Value(S.ms[ms[1]], t)) + SumOver(S, Tail(ms), t)

AnyOff(S, ms, t) == \E i \in 1..Len(ms) : Value(S.ms[ms[i]], t) = OFF
AllTimes(S, ms) == UNION {Times(S.ms[ms[i]]) : i \in 1..Len(ms)}

Do_merge(S, o) ==
  LET e == MixErr(S, o.ms)
      M == S.ms[o.ms[1]]
  IN IF e # "" THEN Err(S, e)
     ELSE AddMon(S, [Derived(M, IF M.lv THEN FromTimes(AllTimes(S, o.ms), NowOf(S, M), LAMBDA t : IF AnyOff(S, o.ms, t) THEN OFF ELSE SumOver(S, o.ms, t))
                               ELSE MergeX([i \in 1..Len(o.ms) |-> S.ms[o.ms[i]].x]))
                     EXCEPT !.ty = IF \A i \in 1..Len(o.ms) : S.ms[o.ms[i]].ty = M.ty THEN @ ELSE "any"])

\* the mapped function of the driver: 2 * x1 + x2 + x3 ... + 1 (numeric values only)
MapF(S, ms, t) == Value(S.ms[ms[1]], t) + SumOver(S, ms, t) + 1

Do_xmap(S, o) ==
  LET M == S.ms[o.ms[1]]
      e == IF \E i \in 1..Len(o.ms) : S.ms[o.ms[i]].lv # M.lv \/ Env(S.ms[o.ms[i]]) # Env(M) THEN "TypeError" ELSE ""
  IN IF e # "" THEN Err(S, e)
     ELSE AddMon(S, [Derived(M, IF M.lv THEN FromTimes(AllTimes(S, o.ms), NowOf(S, M), LAMBDA t : IF AnyOff(S, o.ms, t) THEN OFF ELSE MapF(S, o.ms, t))
                               ELSE [i \in 1..Len(M.x) |-> <<M.x[i][1], 2 * M.x[i][2] + 1, M.x[i][3]>>])
                     EXCEPT !.ty = "any"])

Do_mul(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.so THEN Err(S, "NotImplementedError")
  ELSE IF M.lv \/ M.ty # "float" THEN Err(S, "ValueError")
  ELSE AddMon(S, Derived(M, [i \in 1..Len(M.x) |-> <<M.x[i][1], o.k * M.x[i][2], M.x[i][3]>>]))

Do_freeze(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.so THEN Err(S, "NotImplementedError")
  ELSE AddMon(S, [M EXCEPT !.gen = TRUE, !.fz = <<NowOf(S, M), OffOf(S, M), Len(S.ms) + 1>>])

-----------------------------------------------------------------------------
\* questions (answers are sequences)
Do_get(S, o) ==
  LET M == S.ms[o.m]
      t == o.t + OffOf(S, M)
  IN IF ~M.lv THEN Err(S, "TypeError")
     ELSE IF t = NowOf(S, M) THEN Ans(S, <<IF M.fc THEN M.val ELSE NONE>>)
     ELSE IF M.so THEN Err(S, "NotImplementedError")
     ELSE Ans(S, <<Value(M, t)>>)

\* sorted by value; the order of equal values does not matter
SortP(P) == SortSeq(P, LAMBDA a, b : a[1] < b[1])

RECURSIVE CumIdx(_, _, _, _, _)
CumIdx(P, i, cum, q, w) ==    \* first index whose cumulative weight reaches q% of w; <<index, exactly>>
  LET c == cum + P[i][2] IN
  IF c * 100 >= q * w \/ i = Len(P) THEN <<i, c * 100 = q * w>> ELSE CumIdx(P, i + 1, c, q, w)

\* weights other than 1 are (or were) involved
Weighted(M) == M.lv \/ \E i \in 1..Len(M.x) : M.x[i][3] # 1

Pct(S, M, q, ex0, ip) ==      \* 200 times the percentile
  LET P == Pairs(S, M, ex0, TRUE)
      Q == SortP(P)
      n == Len(P)
      w == SumW(P)
  IN IF q <= 0 THEN (IF P = <<>> THEN NAN ELSE 200 * Q[1][1])
     ELSE IF q >= 100 THEN (IF P = <<>> THEN NAN ELSE 200 * Q[n][1])
     ELSE IF n = 1 THEN 200 * Q[1][1]
     ELSE IF w = 0 THEN NAN
     ELSE IF Weighted(M) THEN
       LET ki == CumIdx(Q, 1, 0, q, w)
           k == ki[1]
       IN IF ~ki[2] THEN 200 * Q[k][1]
          ELSE CASE ip \in {"linear", "midpoint"} -> 100 * (Q[k][1] + Q[k + 1][1])
                 [] ip = "lower" -> 200 * Q[k][1]
                 [] ip = "higher" -> 200 * Q[k + 1][1]
     ELSE
       LET k == ((q * (n - 1)) \div 100) + 1
           f == (q * (n - 1)) % 100
           a == Q[k][1]
           b == Q[k + 1][1]
       IN CASE ip = "linear" -> 200 * a + 2 * f * (b - a)
            [] ip = "midpoint" -> 100 * (a + b)
            [] ip = "lower" -> 200 * a
            [] ip = "higher" -> 200 * b
            [] ip = "nearest" -> IF f <= 50 THEN 200 * a ELSE 200 * b

Do_pct(S, o) ==
  LET M == S.ms[o.m] IN
  IF M.so THEN Err(S, "NotImplementedError")
  ELSE IF o.ip = "nearest" /\ Weighted(M) THEN Err(S, "ValueError")
  ELSE Ans(S, <<Pct(S, M, o.q, o.ex0, o.ip)>>)

InBin(lo, hi, P) == SelectSeq(P, LAMBDA p : p[1] > lo /\ p[1] <= hi)
\* bin_number_of_entries / bin_weight / bin_duration
Do_bin(S, o) ==
  LET M == S.ms[o.m]
      P == InBin(o.lo, o.hi, Pairs(S, M, FALSE, TRUE))
  IN IF M.so THEN Err(S, "NotImplementedError")
     ELSE IF o.w THEN Ans(S, <<SumW(P)>>)
     ELSE IF M.lv THEN Err(S, "TypeError")
     ELSE Ans(S, <<Len(InBin(o.lo, o.hi, Pairs(S, M, o.ex0, TRUE)))>>)
\* value_number_of_entries / value_weight / value_duration
Do_valw(S, o) ==
  LET M == S.ms[o.m]
      P == SelectSeq(Pairs(S, M, FALSE, FALSE), LAMBDA p : \E i \in 1..Len(o.v) : o.v[i] = p[1])
  IN IF M.so THEN Err(S, "NotImplementedError")
     ELSE IF o.w THEN Ans(S, <<SumW(P)>>)
     ELSE IF M.lv THEN Err(S, "TypeError")
     ELSE Ans(S, <<Len(P)>>)

\* values(): the different values, ordered (numbers, also in textual form, first; then text), or by weight
ValKey(v) == IF v >= 2000 THEN (v - 2000) * 10 + 1 ELSE IF v >= 1000 THEN 100000 + v ELSE v * 10
\* the recorded values and times (xt, tx, as_dataframe), optionally without zeroes, without the off periods, with the
\* current moment added.  Repetitions of a value are left out of the answer of level monitors, the last entry is repeated at the end
RECURSIVE Canon(_, _)
Canon(s, acc) == IF s = <<>> THEN acc
                 ELSE Canon(Tail(s), IF acc # <<>> /\ acc[Len(acc)][1] = s[1][1] THEN acc ELSE Append(acc, s[1]))
Do_xt(S, o) ==
  LET M == S.ms[o.m]
      all == [i \in 1..Len(M.x) |-> <<M.x[i][2], M.x[i][1]>>]
             \o (IF M.lv /\ o.now THEN <<<<M.x[Len(M.x)][2], NowOf(S, M)>>>> ELSE <<>>)
      nm == IF o.num THEN [i \in 1..Len(all) |-> <<IF all[i][1] = OFF THEN OFF ELSE Num(all[i][1]), all[i][2]>>] ELSE all
      f == SelectSeq(nm, LAMBDA e : (~o.ex0 \/ e[1] # 0) /\ (~M.lv \/ ~o.exoff \/ e[1] # OFF))
  IN IF M.so THEN Err(S, "NotImplementedError")
     ELSE Ans(S, IF ~M.lv \/ f = <<>> THEN f ELSE Append(Canon(f, <<>>), f[Len(f)]))

Do_values(S, o) ==
  LET M == S.ms[o.m]
      P == Pairs(S, M, o.ex0, o.num)
      V == Xs(P)
      W(v) == SumW(SelectSeq(Pairs(S, M, FALSE, FALSE), LAMBDA p : p[1] = v))
      lt(a, b) == IF o.sort /\ W(a) # W(b) THEN W(a) > W(b) ELSE ValKey(a) < ValKey(b)
  IN IF M.so THEN Err(S, "NotImplementedError") ELSE Ans(S, SetToSortSeq(V, lt))

\* the rows of print_histogram: counts per bin, including below and above
Do_hist(S, o) ==
  LET M == S.ms[o.m]
      P == Pairs(S, M, o.ex0, TRUE)
      row(i) == LET b == InBin(IF i = 1 THEN -INF ELSE o.lb + (i - 2) * o.bw, IF i = o.nb + 2 THEN INF ELSE o.lb + (i - 1) * o.bw, P)
                IN IF Weighted(M) THEN SumW(b) ELSE Len(b)
  IN IF M.so THEN Ans(S, <<>>) ELSE Ans(S, [i \in 1..(o.nb + 2) |-> row(i)])

\* the rows of print_histogram(values=...)
Do_vhist(S, o) ==
  LET M == S.ms[o.m]
      V == Pairs(S, M, o.ex0, FALSE)
      W(v) == LET P == SelectSeq(Pairs(S, M, FALSE, FALSE), LAMBDA p : p[1] = v) IN IF Weighted(M) THEN SumW(P) ELSE Len(P)
      s == SetToSortSeq(Xs(V), LAMBDA a, b : ValKey(a) < ValKey(b))
  IN Ans(S, [i \in 1..Len(s) |-> <<s[i], W(s[i])>>])

\* as_resampled_dataframe: level monitors sampled at o.a (or their start), each o.d, before o.b (or now); the first row has the times
Do_sample(S, o) ==
  LET M0 == S.ms[o.ms[1]]
      t0 == M0.x[1][1]
      off == OffOf(S, M0)
      a == IF o.a = NONE THEN t0 ELSE o.a + off
      b == IF o.b = NONE THEN NowOf(S, M0) ELSE o.b + off
      n == IF b <= a THEN 0 ELSE (b - a + o.d - 1) \div o.d
  IN IF \E i \in 1..Len(o.ms) : LET M == S.ms[o.ms[i]] IN ~M.lv \/ M.x[1][1] # t0 \/ Env(M) # Env(S.ms[o.ms[1]]) THEN Err(S, "ValueError")
     ELSE Ans(S, <<[i \in 1..n |-> a + (i - 1) * o.d - off]>>
                 \o [j \in 1..Len(o.ms) |-> [i \in 1..n |-> LET t == a + (i - 1) * o.d IN IF t < t0 THEN OFF ELSE Value(S.ms[o.ms[j]], t)]])

Do_nop(S, o) == S

Apply(S0, o) ==
  LET S == [S0 EXCEPT !.err = "", !.ans = <<>>]
      T == CASE o.op = "adv" -> Do_adv(S, o)
             [] o.op = "resetnow" -> Do_resetnow(S, o)
             [] o.op = "create" -> Do_create(S, o)
             [] o.op = "tally" -> Do_tally(S, o)
             [] o.op = "tallyoff" -> Do_tallyoff(S, o)
             [] o.op = "mon" -> Do_mon(S, o)
             [] o.op = "reset" -> Do_reset(S, o)
             [] o.op = "slice" -> Do_slice(S, o)
             [] o.op = "merge" -> Do_merge(S, o)
             [] o.op = "xmap" -> Do_xmap(S, o)
             [] o.op = "mul" -> Do_mul(S, o)
             [] o.op = "freeze" -> Do_freeze(S, o)
             [] o.op = "get" -> Do_get(S, o)
             [] o.op = "pct" -> Do_pct(S, o)
             [] o.op = "bin" -> Do_bin(S, o)
             [] o.op = "valw" -> Do_valw(S, o)
             [] o.op = "values" -> Do_values(S, o)
             [] o.op = "xt" -> Do_xt(S, o)
             [] o.op = "hist" -> Do_hist(S, o)
             [] o.op = "vhist" -> Do_vhist(S, o)
             [] o.op = "sample" -> Do_sample(S, o)
             [] OTHER -> Do_nop(S, o)
  IN T

-----------------------------------------------------------------------------
\* properties
TimesOk(M) == \A i \in 1..(Len(M.x) - 1) : IF M.lv THEN M.x[i][1] < M.x[i + 1][1] ELSE M.x[i][1] <= M.x[i + 1][1]
\* the level is constant between tallies, and the durations of all its values add up to the time it was on
DurationOk(S, M) ==
  ~M.lv \/ LET P == Pairs(S, M, FALSE, FALSE)
               per(v) == SumW(SelectSeq(P, LAMBDA p : p[1] = v))
               vs == SetToSeq(Xs(P))
               offs == LET n == Len(M.x) IN SumSeq([i \in 1..n |-> IF M.x[i][2] = OFF THEN (IF i < n THEN M.x[i + 1][1] ELSE NowOf(S, M)) - M.x[i][1] ELSE 0])
           IN /\ SumSeq([i \in 1..Len(vs) |-> per(vs[i])]) = SumW(P)
              /\ SumW(P) + offs = NowOf(S, M) - M.x[1][1]
MeanBetween(S, M) ==
  LET P == Pairs(S, M, FALSE, TRUE) IN
  SumW(P) > 0 => /\ Min(Xs(P)) * SumW(P) <= SumXW(P)
                 /\ SumXW(P) <= Max(Xs(P)) * SumW(P)
                 /\ SumW(P) * SumXXW(P) >= SumXW(P) * SumXW(P)
PctMonotone(S, M) ==
  ~M.so => \A ip \in {"linear", "lower", "higher", "midpoint"} :
             LET p(q) == Pct(S, M, q, FALSE, ip) IN
             \A q \in {0, 10, 25, 50, 75} : p(q) <= p(IF q = 0 THEN 10 ELSE IF q = 10 THEN 25 ELSE IF q = 25 THEN 50 ELSE IF q = 50 THEN 75 ELSE 100)
HistOk(S, M) ==    \* bins partition the observations
  ~M.so => LET P == Pairs(S, M, FALSE, TRUE) IN
           SumW(InBin(-INF, 0, P)) + SumW(InBin(0, 3, P)) + SumW(InBin(3, INF, P)) = SumW(P)

StateViolations(S) ==
  UNION {LET M == S.ms[i] IN
         (IF TimesOk(M) THEN {} ELSE {"TimesOk"}) \cup
         (IF DurationOk(S, M) THEN {} ELSE {"DurationOk"}) \cup
         (IF MeanBetween(S, M) THEN {} ELSE {"MeanBetween"}) \cup
         (IF PctMonotone(S, M) THEN {} ELSE {"PctMonotone"}) \cup
         (IF HistOk(S, M) THEN {} ELSE {"HistOk"}) : i \in 1..Len(S.ms)}
\* derived monitors do not change any more, whatever happens to the monitors they were made of, and
\* turning a monitor off and on, slicing, merging or asking does not change what others recorded
StepViolations(S, o, T) ==
  (IF \A i \in 1..Len(S.ms) : S.ms[i].gen => S.ms[i].x = T.ms[i].x THEN {} ELSE {"DerivedFixed"}) \cup
  (IF \A i \in 1..Len(S.ms) : (o.op \notin {"reset"} \/ o.m # i) => Len(T.ms[i].x) >= Len(S.ms[i].x) THEN {} ELSE {"HistoryKept"})
=============================================================================
