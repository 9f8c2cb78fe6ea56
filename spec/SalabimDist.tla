----------------------------- MODULE SalabimDist -----------------------------
(* Distributions and random streams.                                           *)
(*                                                                             *)
(* A distribution is a term; its meaning is a probability measure.  The        *)
(* random stream is taken to deliver each of the N numbers (2k+1)/2N (k<N)     *)
(* with probability 1/N at each call, independently.  Whatever way a           *)
(* distribution uses its stream, the outcomes, weighted over all possible      *)
(* behaviours of the stream, have to form the measure below: for discrete      *)
(* distributions that is simply the specified one; the continuous ones that    *)
(* use one number per sample take on their N quantiles.                        *)
(*                                                                             *)
(* A measure is [den |-> total weight, pts |-> sequence of <<value, weight>>]. *)
(* Values are fractions.  Values of 100001 and up stand for texts.             *)
(*                                                                             *)
(* Random streams: a sample depends on the seed of its stream and on what has  *)
(* been drawn from that stream since, and on nothing else.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NAN == <<0, 0>>
WEIRD == -888888
Sec(u) == CASE u = "weeks" -> 604800 [] u = "days" -> 86400 [] u = "hours" -> 3600 [] u = "minutes" -> 60 [] u = "seconds" -> 1

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Fr(a, b) == LET s == IF b < 0 THEN -1 ELSE 1
                g == Gcd(Abs(a), Abs(b))
            IN <<s * (a \div g), s * (b \div g)>>
FAdd(p, q) == Fr(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
FSub(p, q) == Fr(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
FMul(p, q) == Fr(p[1] * q[1], p[2] * q[2])
FDiv(p, q) == Fr(p[1] * q[2], p[2] * q[1])
FFloorDiv(p, q) == LET x == FDiv(p, q) IN <<x[1] \div x[2], 1>>
FLess(p, q) == p[1] * q[2] < q[1] * p[2]
FLeq(p, q) == p[1] * q[2] <= q[1] * p[2]
RECURSIVE FPow(_, _)
FPow(p, n) == IF n = 0 THEN <<1, 1>> ELSE FMul(p, FPow(p, n - 1))
Num(v) == <<v, 1>>
IsText(v) == v[1] >= 100001
RECURSIVE Sqrt(_, _, _)
Sqrt(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Sqrt(n, m, hi) ELSE Sqrt(n, lo, m - 1)
ISqrt(n) == Sqrt(n, 0, 46340)

Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
SumF(s) == FoldSeq(LAMBDA x, y : FAdd(x, y), <<0, 1>>, s)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

---------------------------------------------------------------------------
(* -ln((2k+1)/24), in millionths *)
LnTable == <<3178054, 2079442, 1568616, 1232144, 980829, 780159, 613104, 470004, 344840, 233615, 133531, 42560>>
(* e^-m, in 10^-8, for m = 1/2, 1, 2, 3 *)
ExpTable(m) == CASE m = <<1, 2>> -> 60653066 [] m = <<1, 1>> -> 36787944 [] m = <<2, 1>> -> 13533528 [] m = <<3, 1>> -> 4978707

(* factor of the time unit of a term *)
Factor(G, t) == IF t.u = "" THEN <<1, 1>> ELSE Fr(Sec(t.u), Sec(G.u))

Measure(pts) == [den |-> Sum([i \in 1..Len(pts) |-> pts[i][2]]), pts |-> pts]
Point(v) == [den |-> 1, pts |-> <<<<v, 1>>>>]
(* equal values taken together, without impossible ones, in order of value *)
Tidy(m0) ==
  LET m == TLCEval(m0)
      vs == {m.pts[i][1] : i \in {j \in 1..Len(m.pts) : m.pts[j][2] > 0}}
      w(v) == Sum([i \in 1..Len(m.pts) |-> IF m.pts[i][1] = v THEN m.pts[i][2] ELSE 0])
      ss == SetToSortSeq(vs, FLess)
  IN TLCEval([den |-> m.den, pts |-> [i \in 1..Len(ss) |-> <<ss[i], w(ss[i])>>]])
(* mixture: measures ms with weights ps *)
Mix(ms0, ps) ==
  LET ms == TLCEval(ms0)
      D == FoldSeq(LAMBDA m, d : (m.den * d) \div Gcd(m.den, d), 1, ms)
  IN [den |-> D * Sum(ps),
      pts |-> FlattenSeq([i \in 1..Len(ms) |-> [j \in 1..Len(ms[i].pts) |-> <<ms[i].pts[j][1], ms[i].pts[j][2] * (D \div ms[i].den) * ps[i]>>]])]
Product(a0, b0, op(_, _)) ==
  LET a == TLCEval(a0)
      b == TLCEval(b0)
  IN [den |-> a.den * b.den,
   pts |-> FlattenSeq([i \in 1..Len(a.pts) |-> [j \in 1..Len(b.pts) |-> <<op(a.pts[i][1], b.pts[j][1]), a.pts[i][2] * b.pts[j][2]>>]])]
Image(m0, f(_)) == LET m == TLCEval(m0) IN [m EXCEPT !.pts = [i \in 1..Len(m.pts) |-> <<f(m.pts[i][1]), m.pts[i][2]>>]]

OpFun(op, p, q) == CASE op = "add" -> FAdd(p, q) [] op = "sub" -> FSub(p, q) [] op = "mul" -> FMul(p, q)
                     [] op = "div" -> FDiv(p, q) [] op = "floordiv" -> FFloorDiv(p, q) [] op = "pow" -> FPow(p, q[1])
MapFun(f, v) == CASE f = "double" -> FMul(v, Num(2)) [] f = "square" -> FMul(v, v) [] f = "one" -> Num(1)

Inside(t, f, v) ==
  IsText(v) \/ /\ t.haslo => LET b == FMul(Num(t.lo), f) IN IF t.il THEN FLeq(b, v) ELSE FLess(b, v)
               /\ t.hashi => LET b == FMul(Num(t.hi), f) IN IF t.iu THEN FLeq(v, b) ELSE FLess(v, b)
FailValue(t, f) == IF t.hasfail THEN Num(t.fail) ELSE IF t.haslo THEN FMul(Num(t.lo), f) ELSE FMul(Num(t.hi), f)
(* at most n tries *)
RECURSIVE Tries(_, _, _, _)
Tries(t, f, m, n) ==
  IF n = 0 THEN Point(FailValue(t, f))
  ELSE LET out == Sum([i \in 1..Len(m.pts) |-> IF Inside(t, f, m.pts[i][1]) THEN 0 ELSE m.pts[i][2]])
       IN IF out = 0 THEN m
          ELSE IF out = m.den THEN Point(FailValue(t, f))
          ELSE LET rest == Tidy(Tries(t, f, m, n - 1))
               IN [den |-> m.den * rest.den,
                   pts |-> [i \in 1..Len(m.pts) |-> <<m.pts[i][1], IF Inside(t, f, m.pts[i][1]) THEN m.pts[i][2] * rest.den ELSE 0>>]
                           \o [i \in 1..Len(rest.pts) |-> <<rest.pts[i][1], rest.pts[i][2] * out>>]]

(* hundredths, rounded down *)
Hundredths(n, d) == <<n \div d, 100>>
CdfPoint(t, f, u) ==       \* u: fraction
  LET c == Num(t.p[Len(t.p)])
      v == FMul(u, c)
      i == Min({j \in 1..Len(t.p) : FLess(v, Num(t.p[j]))})
      g == FDiv(FSub(v, Num(t.p[i - 1])), FSub(Num(t.p[i]), Num(t.p[i - 1])))
  IN FMul(FAdd(Num(t.x[i - 1]), FMul(g, FSub(Num(t.x[i]), Num(t.x[i - 1])))), f)
TriPoint(t, f, k, N) ==    \* in hundredths
  LET below == (2 * k + 1) * (t.b - t.a) <= 2 * N * (t.m - t.a)
      r == IF below THEN (2 * k + 1) * (t.b - t.a) * (t.m - t.a) ELSE (2 * N - 2 * k - 1) * (t.b - t.a) * (t.b - t.m)
      \* 100 f sqrt(r / 2N): rounded down, or up when it is to be subtracted
      num == 10000 * f[1] * f[1] * r
      den == 2 * N * f[2] * f[2]
      q == num \div den
      s == ISqrt(q)
  IN IF below THEN Hundredths(100 * f[1] * t.a + s * f[2], f[2])
     ELSE Hundredths(100 * f[1] * t.b - (IF s * s = q /\ num % den = 0 THEN s ELSE s + 1) * f[2], f[2])
(* number of grid points with value k: F(k-1) < u < F(k) *)
RECURSIVE PoissonPts(_, _, _, _, _, _)
PoissonPts(m, N, k, term, cum, done) ==
  IF done = N THEN <<>>
  ELSE LET upto == Cardinality({j \in 0..(N - 1) : (2 * j + 1) * (100000000 \div (2 * N)) < cum})
           t1 == (term * m[1]) \div ((k + 1) * m[2])
       IN <<<<Num(k), upto - done>>>> \o PoissonPts(m, N, k + 1, t1, cum + t1, upto)

RECURSIVE Meas(_, _, _)
Meas(G, N, t) ==
  LET f == Factor(G, t)
      grid(q(_)) == [den |-> N, pts |-> [k \in 1..N |-> <<q(k - 1), 1>>]]
  IN CASE t.k = "const" -> Point(FMul(Num(t.a), f))
       [] t.k = "text" -> Point(Num(t.a))
       [] t.k = "int" -> [den |-> t.b - t.a + 1, pts |-> [i \in 1..(t.b - t.a + 1) |-> <<FMul(Num(t.a + i - 1), f), 1>>]]
       [] t.k \in {"unif", "ext"} -> grid(LAMBDA k : FMul(FAdd(Num(t.a), FMul(Num(t.b - t.a), Fr(2 * k + 1, 2 * N))), f))
       [] t.k = "tri" -> IF t.a = t.b THEN Point(Hundredths(100 * t.a * f[1], f[2])) ELSE grid(LAMBDA k : TriPoint(t, f, k, N))
       [] t.k = "exp" -> grid(LAMBDA k : Hundredths(LnTable[k + 1] * t.a * f[1], 10000 * f[2]))
       [] t.k = "weib" -> grid(LAMBDA k : IF t.m = 1 THEN Hundredths(LnTable[k + 1] * t.a * f[1], 10000 * f[2])
                                          ELSE <<ISqrt((((LnTable[k + 1] * t.a * t.a * f[1]) \div (100 * f[2])) * f[1]) \div f[2]), 100>>)
       [] t.k = "pois" -> LET m == Fr(t.a, t.b) IN [den |-> N, pts |-> PoissonPts(m, N, 0, ExpTable(m), ExpTable(m), 0)]
       [] t.k \in {"pdf", "cumpdf"} ->
            LET ps == IF t.k = "pdf" THEN t.p ELSE [i \in 1..Len(t.p) |-> t.p[i] - (IF i = 1 THEN 0 ELSE t.p[i - 1])]
            IN Mix([i \in 1..Len(t.x) |-> Image(Meas(G, N, t.x[i]), LAMBDA v : IF IsText(v) THEN v ELSE FMul(v, f))], ps)
       [] t.k = "cdf" -> grid(LAMBDA k : CdfPoint(t, f, Fr(2 * k + 1, 2 * N)))
       [] t.k = "expr" -> Product(Tidy(Meas(G, N, t.x)), Tidy(Meas(G, N, t.y)), LAMBDA p, q : OpFun(t.op, p, q))
       [] t.k = "map" -> Image(Meas(G, N, t.x), LAMBDA v : MapFun(t.f, v))
       [] t.k = "bnd" -> IF t.haslo \/ t.hashi THEN Tries(t, f, Tidy(Meas(G, N, t.x)), t.n) ELSE Meas(G, N, t.x)

(* plain numbers and constants in an expression, as opposed to distributions *)
Fixed(t) == t.k = "const"
RECURSIVE MeanOf(_, _)
MeanOf(G, t) ==
  LET f == Factor(G, t)
      scaled(m) == IF m = NAN THEN NAN ELSE FMul(m, f)
  IN CASE t.k = "const" -> FMul(Num(t.a), f)
       [] t.k \in {"text", "ext"} -> NAN
       [] t.k \in {"int", "unif"} -> FMul(Fr(t.a + t.b, 2), f)
       [] t.k = "tri" -> FMul(Fr(t.a + t.b + t.m, 3), f)
       [] t.k \in {"exp", "norm"} -> FMul(Num(t.a), f)
       [] t.k = "weib" -> IF t.m = 1 THEN FMul(Num(t.a), f) ELSE NAN
       [] t.k = "pois" -> Fr(t.a, t.b)
       [] t.k = "beta" -> Fr(t.a, t.a + t.b)
       [] t.k \in {"gamma", "erlang"} -> FMul(Num(t.a * t.b), f)
       [] t.k \in {"pdf", "cumpdf"} ->
            LET ps == IF t.k = "pdf" THEN t.p ELSE [i \in 1..Len(t.p) |-> t.p[i] - (IF i = 1 THEN 0 ELSE t.p[i - 1])]
                ms == [i \in 1..Len(t.x) |-> MeanOf(G, t.x[i])]
            IN IF NAN \in ToSet(ms) THEN NAN ELSE FMul(FDiv(SumF([i \in 1..Len(ms) |-> FMul(ms[i], Num(ps[i]))]), Num(Sum(ps))), f)
       [] t.k = "cdf" ->
            FMul(SumF([i \in 1..(Len(t.x) - 1) |-> FMul(Fr(t.x[i] + t.x[i + 1], 2), Fr(t.p[i + 1] - t.p[i], t.p[Len(t.p)]))]), f)
       [] t.k = "expr" ->
            LET a == MeanOf(G, t.x)
                b == MeanOf(G, t.y)
            IN IF t.op \in {"floordiv", "pow"} \/ NAN \in {a, b} \/ (t.op = "div" /\ ~Fixed(t.y)) \/ (t.op = "mul" /\ ~Fixed(t.x) /\ ~Fixed(t.y)) THEN NAN
               ELSE OpFun(t.op, a, b)
       [] t.k = "map" -> NAN
       [] t.k = "bnd" -> IF t.haslo \/ t.hashi THEN NAN ELSE MeanOf(G, t.x)

(* what is refused *)
RECURSIVE Error(_, _)
Error(G, t) ==
  LET subs == CASE t.k \in {"pdf", "cumpdf"} -> t.x [] t.k = "expr" -> <<t.x, t.y>> [] t.k \in {"map", "bnd"} -> <<t.x>> [] OTHER -> <<>>
      inner == {Error(G, subs[i]) : i \in 1..Len(subs)} \ {""}
  IN IF inner # {} THEN CHOOSE e \in inner : TRUE
     ELSE IF t.u # "" /\ G.u = "n/a" THEN "AttributeError"
     ELSE CASE t.k \in {"int", "unif"} /\ t.a > t.b -> "ValueError"
            [] t.k = "tri" /\ (t.a > t.m \/ t.m > t.b) -> "ValueError"
            [] t.k = "bnd" /\ t.haslo /\ t.hashi /\ t.lo > t.hi -> "ValueError"
            [] t.k \in {"exp", "gamma", "erlang", "beta"} /\ t.a <= 0 -> "ValueError"
            [] t.k = "weib" /\ t.m <= 0 -> "ValueError"
            [] t.k = "pdf" /\ Sum(t.p) = 0 -> "ValueError"
            [] t.k \in {"cumpdf", "cdf"} /\ (t.p[Len(t.p)] = 0 \/ \E i \in 1..(Len(t.p) - 1) : t.p[i + 1] < t.p[i]) -> "ValueError"
            [] t.k = "cdf" /\ (t.p[1] # 0 \/ \E i \in 1..(Len(t.x) - 1) : t.x[i + 1] < t.x[i]) -> "ValueError"
            [] t.k = "pdf" /\ t.u # "" /\ \E i \in 1..Len(t.x) : (t.x[i].k # "const" \/ t.x[i].u # "") -> "TypeError"
            [] t.k = "cumpdf" /\ t.u # "" /\ \E i \in 1..Len(t.x) : (t.x[i].k # "const" \/ t.x[i].u # "") -> "TypeError"
            [] OTHER -> ""

Sampled(t) == t.k \notin {"norm", "gamma", "erlang", "beta"}
Weights(m) == [i \in 1..Len(m.pts) |-> <<m.pts[i][1], Fr(m.pts[i][2], m.den)>>]

---------------------------------------------------------------------------
(* sampling n out of equally likely values (digits), without replacement, in any order: as a number with those digits in order *)
RECURSIVE Digits(_)
Digits(s) == IF s = <<>> THEN 0 ELSE 10 * Digits(Front(s)) + Last(s)
Draw(xs, n) ==
  LET k == IF n > Len(xs) THEN Len(xs) ELSE n
      sets == {I \in SUBSET (1..Len(xs)) : Cardinality(I) = k}
      code(I) == Digits(SetToSortSeq({<<xs[i], i>> : i \in I}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])))
      val(I) == LET s == SetToSortSeq({<<xs[i], i>> : i \in I}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
                IN Digits([j \in 1..Len(s) |-> s[j][1]])
      ss == SetToSeq(sets)
  IN Tidy([den |-> Len(ss), pts |-> [i \in 1..Len(ss) |-> <<Num(val(ss[i])), 1>>]])

---------------------------------------------------------------------------
InitState(g) == [G |-> g, err |-> "", r |-> <<>>, m |-> NAN, st |-> <<<<"?", <<>>>>>>, dr |-> <<>>, fresh |-> 0]

Do_dist(S, o) ==
  LET e == Error(S.G, o.d)
  IN IF e # "" THEN [S EXCEPT !.err = e]
     ELSE [S EXCEPT !.m = MeanOf(S.G, o.d), !.r = IF Sampled(o.d) THEN Weights(Tidy(Meas(S.G, o.N, o.d))) ELSE <<>>]
Do_draw(S, o) == IF ToSet(o.p) # {o.p[1]} THEN [S EXCEPT !.err = "ValueError"] ELSE [S EXCEPT !.r = Weights(Draw(o.x, o.n))]

(* streams: S.st[i] = <<seed, draws since>>; the first one is the default stream *)
Fresh(S) == ToString(<<"fresh", S.fresh>>)
SeedOf(S, s) == IF s = "none" THEN "1234567" ELSE IF s = "*" THEN Fresh(S) ELSE s
Reseed(S, i, s) == IF s = "" THEN S ELSE [S EXCEPT !.st[i] = <<SeedOf(S, s), <<>>>>, !.fresh = @ + 1]
Do_stream(S, o) == [S EXCEPT !.st = Append(@, <<SeedOf(S, o.seed), <<>>>>), !.fresh = @ + 1]
Do_reseed(S, o) == Reseed(S, o.i, o.seed)
Do_newenv(S, o) == Reseed(S, 1, o.seed)
(* a sample of kind o.k, or a complete simulation *)
Do_sample(S, o) ==
  LET key == <<S.st[o.i][1], Append(S.st[o.i][2], o.k)>>
  IN [S EXCEPT !.st[o.i] = key, !.dr = Append(@, key)]

Apply(S0, o) ==
  LET S == [S0 EXCEPT !.err = "", !.r = <<>>, !.m = NAN]
  IN CASE o.op = "dist" -> Do_dist(S, o) [] o.op = "draw" -> Do_draw(S, o) [] o.op = "stream" -> Do_stream(S, o)
       [] o.op = "reseed" -> Do_reseed(S, o) [] o.op = "newenv" -> Do_newenv(S, o) [] o.op = "sample" -> Do_sample(S, o)

(* two samples are equal exactly if they were the same draw from equally seeded streams with the same past *)
Obs(S) == [err |-> S.err, r |-> S.r, m |-> S.m,
           dr |-> [i \in 1..Len(S.dr) |-> Min({j \in 1..i : S.dr[j] = S.dr[i]})]]

---------------------------------------------------------------------------
StateViolations(S) ==
  {"not a probability measure" : x \in {1} \cap (IF S.r # <<>> /\ SumF([i \in 1..Len(S.r) |-> S.r[i][2]]) # <<1, 1>> THEN {1} ELSE {})}
(* the mean is that of the measure (explored for small terms only: TLC has 32 bit integers) *)
MeanLaw(o, T) ==
  (o.op = "dist" /\ T.err = "" /\ T.m # NAN /\ T.r # <<>> /\ o.d.k \in {"const", "int", "unif", "pdf", "cumpdf", "expr", "bnd"})
    => SumF([i \in 1..Len(T.r) |-> FMul(T.r[i][1], T.r[i][2])]) = T.m
StepViolations(S, o, T) ==
     {"other stream affected" : i \in {j \in 1..Len(S.st) : o.op \in {"sample", "reseed"} /\ o.i # j /\ T.st[j] # S.st[j]}}
=============================================================================
