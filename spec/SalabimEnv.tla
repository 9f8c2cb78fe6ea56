------------------------------ MODULE SalabimEnv -----------------------------
(* Environments: their clocks, time units and calendars, and the names of the  *)
(* objects in them.  Several environments live in one process and never        *)
(* influence each other.                                                       *)
(*                                                                             *)
(* Times are whole seconds.  An environment is a record                        *)
(*   u    time unit ("n/a": none; a unit of time is then simply one)            *)
(*   z    the date and time that was shown as 0 at the start, in seconds since  *)
(*        2000-01-01 (NONE: no dates)                                           *)
(*   now  internal clock, never changed by reset_now                            *)
(*   off  what is to be subtracted from internal times to get shown times       *)
(*   zoff value of off when the calendar was set                                *)
(*   eoe  the last run was without limit                                         *)
(*   ns   name spaces: <<kind, base name, last sequence number>>                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NONE == -999999999
INF == 1000000000

---------------------------------------------------------------------------
(* time units: seconds per unit as a fraction *)
Units == <<"years", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds">>
Sec(u) == CASE u = "years" -> <<31536000, 1>> [] u = "weeks" -> <<604800, 1>> [] u = "days" -> <<86400, 1>>
            [] u = "hours" -> <<3600, 1>> [] u = "minutes" -> <<60, 1>> [] u = "seconds" -> <<1, 1>>
            [] u = "milliseconds" -> <<1, 1000>> [] u = "microseconds" -> <<1, 1000000>> [] u = "n/a" -> <<1, 1>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(f) == LET g == Gcd(IF f[1] < 0 THEN -f[1] ELSE f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
(* product of two fractions, cancelling crosswise first *)
Mul(f, h) == LET a == Reduce(<<f[1], h[2]>>)
                 b == Reduce(<<h[1], f[2]>>)
             IN IF f[1] = 0 \/ h[1] = 0 THEN <<0, 1>> ELSE <<a[1] * b[1], b[2] * a[2]>>
Inv(f) == <<f[2], f[1]>>
(* n units u, expressed in units w *)
Convert(n, u, w) == Mul(<<n, 1>>, Mul(Sec(u), Inv(Sec(w))))

---------------------------------------------------------------------------
(* the calendar *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Civil(days) ==
  LET a == days + 730425
      era == a \div 146097
      doe == a - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
Clock(s) == Pad2(s \div 3600) \o ":" \o Pad2((s \div 60) % 60) \o ":" \o Pad2(s % 60)
DateStr(z) == LET c == Civil(z \div 86400)
              IN ToString(c[1]) \o "-" \o Pad2(c[2]) \o "-" \o Pad2(c[3]) \o " " \o Clock(z % 86400)
WeekDay(z) == <<"Sat", "Sun", "Mon", "Tue", "Wed", "Thu", "Fri">>[((z \div 86400) % 7) + 1]
(* a nonnegative fraction with three decimals (rounded; never asked for halfway cases) *)
Decimal(f) == LET k == (2000 * (f[1] % f[2]) + f[2]) \div (2 * f[2])
              IN ToString(f[1] \div f[2] + k \div 1000) \o "." \o Pad3(k % 1000)
Representable(s, e) == LET f == Mul(<<s, 1>>, Inv(Sec(e.u)))
                       IN f[2] <= 700000 /\ (f[1] % f[2] = 0 \/ (2000 * (f[1] % f[2])) % (2 * f[2]) # f[2])

Date(e, t) == e.z + t - e.off + (e.off - e.zoff)      \* of internal time t: not affected by reset_now
TimeStr(e, t) == IF e.z = NONE THEN Decimal(Mul(<<t - e.off, 1>>, Inv(Sec(e.u)))) ELSE WeekDay(Date(e, t)) \o " " \o DateStr(Date(e, t))
DurStr(e, d) == IF e.z = NONE THEN Decimal(Mul(<<d, 1>>, Inv(Sec(e.u))))
                ELSE (IF d >= 86400 THEN ToString(d \div 86400) \o " " ELSE "") \o Clock(d % 86400)
Template(e, p) == LET par == p \in {"(d)", "(t)"}
                      x == IF p \in {"t", "(t)"} /\ e.z # NONE THEN (IF par THEN "yyyy-mm-dd" ELSE "")
                           ELSE IF e.u = "n/a" THEN "" ELSE e.u
                  IN IF x = "" THEN "" ELSE IF par THEN " (" \o x \o ")" ELSE " " \o x

---------------------------------------------------------------------------
(* names *)
Base(kind, cls, nm) == IF nm = "" \/ nm = "." THEN cls \o "." ELSE IF nm = "," THEN cls \o "," ELSE nm
Space(kind) == IF kind = "store" THEN "queue" ELSE kind
LastChar(s) == SubSeq(s, Len(s), Len(s))
Stem(s) == SubSeq(s, 1, Len(s) - 1)
Serialized(b) == Len(b) > 0 /\ LastChar(b) \in {".", ","}
LastSeq(e, k, b) == LET m == {i \in 1..Len(e.ns) : e.ns[i][1] = k /\ e.ns[i][2] = b}
                    IN IF m = {} THEN NONE ELSE e.ns[Max(m)][3]
NextSeq(e, k, b) == IF LastSeq(e, k, b) = NONE THEN (IF LastChar(b) = "," THEN 1 ELSE 0) ELSE LastSeq(e, k, b) + 1
Derived(kind, n) ==
  LET q == <<"Length of " \o n, "Length of stay in " \o n, "Capacity of " \o n, "Available quantity of " \o n>>
  IN CASE kind \in {"component", "monitor"} -> <<>>
       [] kind = "queue" -> q
       [] kind = "store" -> q \o <<n \o ".to_store_requesters", n \o ".from_store_requesters">>
       [] kind = "resource" -> <<"requesters of " \o n, "claimers of " \o n, "Capacity of " \o n, "Claimed quantity of " \o n,
                                 "Available quantity of " \o n, "Occupancy of " \o n, "Length of requesters of " \o n, "Length of stay in claimers of " \o n>>
       [] kind = "state" -> <<"waiters of " \o n, "Value of " \o n, "Length of waiters of " \o n>>

---------------------------------------------------------------------------
InitState(g) == [es |-> <<>>, cs |-> <<>>, os |-> <<>>, def |-> 0, err |-> "", r |-> <<>>]

Do_newenv(S, o) ==
  LET e == [u |-> IF o.u = "n/a" /\ o.z # NONE THEN "seconds" ELSE o.u, z |-> o.z, now |-> 0, off |-> 0, zoff |-> 0, eoe |-> FALSE, ns |-> <<>>]
  IN [S EXCEPT !.es = Append(@, e), !.def = IF o.def THEN Len(S.es) + 1 ELSE @]

(* all components due until internal time t are executed, in order; each notes the time it sees *)
Run(S, i, t) ==
  [S EXCEPT !.es[i].now = t,
            !.cs = [j \in 1..Len(S.cs) |-> LET c == S.cs[j]
                                            IN IF c.e = i /\ c.at # NONE /\ c.at <= t
                                               THEN [c EXCEPT !.at = NONE, !.seen = c.at - S.es[i].off] ELSE c]]
Do_run(S, o) == Run([S EXCEPT !.es[o.e].eoe = FALSE], o.e, IF o.k = "dur" THEN S.es[o.e].now + o.v ELSE o.v + S.es[o.e].off)
(* without limit: until the last event *)
Do_runall(S, o) == LET ts == {S.cs[j].at : j \in {k \in 1..Len(S.cs) : S.cs[k].e = o.e}} \ {NONE}
                   IN Run([S EXCEPT !.es[o.e].eoe = TRUE], o.e, IF ts = {} THEN S.es[o.e].now ELSE Max(ts))

Do_resetnow(S, o) == [S EXCEPT !.es[o.e].off = S.es[o.e].now - o.v]
Do_setdate(S, o) ==
  LET e == S.es[o.e]
  IN [S EXCEPT !.es[o.e].z = o.z, !.es[o.e].zoff = IF o.z = NONE THEN 0 ELSE e.off,
               !.es[o.e].u = IF o.z # NONE /\ e.u = "n/a" THEN "seconds" ELSE e.u]

(* a component that starts at a given moment (shown time) or after a delay *)
Do_comp(S, o) ==
  LET e == S.es[o.e]
  IN [S EXCEPT !.cs = Append(@, [e |-> o.e, born |-> e.now, seen |-> NONE,
                                 at |-> (IF o.at = NONE THEN e.now ELSE o.at + e.off) + (IF o.delay = NONE THEN 0 ELSE o.delay)])]

Do_conv(S, o) ==     \* n units o.u in the unit of the environment, and the other way around
  LET e == S.es[o.e]
  IN IF e.u = "n/a" THEN [S EXCEPT !.err = "AttributeError"]
     ELSE [S EXCEPT !.r = <<Convert(o.n, o.u, e.u), Convert(o.n, e.u, o.u)>>]
Do_text(S, o) ==     \* of a shown time or duration
  LET e == S.es[o.e] IN [S EXCEPT !.r = <<TimeStr(e, o.v + e.off), DurStr(e, o.v), Template(e, "t"), Template(e, "d"), Template(e, "(t)"), Template(e, "(d)")>>]
Do_dates(S, o) ==    \* date of a shown time, and back
  LET e == S.es[o.e]
  IN IF e.z = NONE THEN [S EXCEPT !.err = "ValueError"]
     ELSE [S EXCEPT !.r = <<DateStr(Date(e, o.v + e.off)), ToString(o.v)>>]

Do_obj(S, o) ==
  LET e == S.es[o.e]
      b == Base(o.k, o.cls, o.nm)
      k == Space(o.k)
      s == IF Serialized(b) THEN NextSeq(e, k, b) ELSE 1
      n == IF Serialized(b) THEN Stem(b) \o "." \o ToString(s) ELSE b
      ob == [e |-> o.e, k |-> o.k, n |-> n, b |-> b, s |-> s, a |-> o.a]
  IN [S EXCEPT !.os = Append(@, ob), !.es[o.e].ns = IF Serialized(b) THEN Append(@, <<k, b, s>>) ELSE @]
Do_rename(S, o) == [S EXCEPT !.os[o.i].n = o.nm]

Apply(S0, o) ==
  LET S == [S0 EXCEPT !.err = "", !.r = <<>>]
  IN CASE o.op = "newenv" -> Do_newenv(S, o) [] o.op = "run" -> Do_run(S, o) [] o.op = "runall" -> Do_runall(S, o)
       [] o.op = "resetnow" -> Do_resetnow(S, o) [] o.op = "setdate" -> Do_setdate(S, o) [] o.op = "comp" -> Do_comp(S, o)
       [] o.op = "conv" -> Do_conv(S, o) [] o.op = "text" -> Do_text(S, o) [] o.op = "dates" -> Do_dates(S, o)
       [] o.op = "obj" -> Do_obj(S, o) [] o.op = "rename" -> Do_rename(S, o) [] o.op = "use" -> S

---------------------------------------------------------------------------
Peek(S, i) == LET ts == {S.cs[j].at : j \in {k \in 1..Len(S.cs) : S.cs[k].e = i}} \ {NONE}
              IN IF ts # {} THEN Min(ts) - S.es[i].off ELSE IF S.es[i].eoe THEN S.es[i].now - S.es[i].off ELSE INF
Obs(S) ==
  [es |-> [i \in 1..Len(S.es) |-> LET e == S.es[i]
              IN <<e.now - e.off, Peek(S, i), e.u, IF e.z = NONE THEN "" ELSE DateStr(Date(e, e.now)), IF e.z = NONE THEN "" ELSE DateStr(Date(e, e.off))>>],
   cs |-> [j \in 1..Len(S.cs) |-> LET c == S.cs[j]
              IN <<IF c.at = NONE THEN "data" ELSE "scheduled", IF c.at = NONE THEN INF ELSE c.at - S.es[c.e].off, c.born - S.es[c.e].off, c.seen>>],
   os |-> [j \in 1..Len(S.os) |-> LET x == S.os[j] IN <<x.n, x.b, ToString(x.s), ToString(x.a)>> \o Derived(x.k, x.n)],
   def |-> S.def, err |-> S.err, r |-> S.r]

---------------------------------------------------------------------------
(* properties of the specification *)
Serial(S, i) == {j \in 1..Len(S.os) : S.os[j].e = i /\ Serialized(S.os[j].b)}
StateViolations(S) ==
     {"events overdue" : x \in {j \in 1..Len(S.cs) : S.cs[j].at # NONE /\ S.cs[j].at < S.es[S.cs[j].e].now}}
  \cup {"name given twice" : x \in {p \in (1..Len(S.os)) \X (1..Len(S.os)) :
          LET a == S.os[p[1]] b == S.os[p[2]]
          IN p[1] < p[2] /\ a.e = b.e /\ Space(a.k) = Space(b.k) /\ Serialized(a.b) /\ a.b = b.b /\ a.s = b.s}}
  \cup {"number skipped" : x \in {j \in 1..Len(S.os) : LET a == S.os[j]
          IN Serialized(a.b) /\ a.s > 1 /\ ~\E k \in 1..Len(S.os) : S.os[k].e = a.e /\ Space(S.os[k].k) = Space(a.k) /\ S.os[k].b = a.b /\ S.os[k].s = a.s - 1}}
StepViolations(S, o, T) ==
     {"clock backwards" : i \in {k \in 1..Len(S.es) : T.es[k].now < S.es[k].now}}
  \cup {"other environment changed" : i \in {k \in 1..Len(S.es) : "e" \in DOMAIN o /\ o.e # k /\ T.es[k] # S.es[k]}}
  \cup {"reset_now moved a date" : i \in {k \in 1..Len(S.es) : o.op = "resetnow" /\ S.es[k].z # NONE /\ Date(T.es[k], T.es[k].now) # Date(S.es[k], S.es[k].now)}}
  \cup {"reset_now changed a duration" : j \in {k \in 1..Len(S.cs) : o.op = "resetnow" /\ T.cs[k] # S.cs[k]}}
=============================================================================
