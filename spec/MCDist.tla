-------------------------------- MODULE MCDist -------------------------------
(* Exhaustive exploration of SalabimDist for small scenarios (see MCCore).      *)
EXTENDS SalabimDist, Json, IOUtils

Scn == IOEnv.SCENARIO
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES S, h
vars == <<S, h>>

Scenario == [g |-> [u |-> IF Scn = "streams" THEN "minutes" ELSE "days"], pre |-> <<>>]

C(a) == [k |-> "const", a |-> a, u |-> ""]
Const(a, u) == [k |-> "const", a |-> a, u |-> u]
T2(k, a, b, u) == [k |-> k, a |-> a, b |-> b, u |-> u]
T3(k, a, b, m, u) == [k |-> k, a |-> a, b |-> b, m |-> m, u |-> u]
Tx(k, x, p, u) == [k |-> k, x |-> x, p |-> p, u |-> u]
Cs(s) == [i \in 1..Len(s) |-> C(s[i])]
Expr(op, x, y) == [k |-> "expr", op |-> op, x |-> x, y |-> y, u |-> ""]
Bnd(x, haslo, lo, hashi, hi, il, iu, hasfail, n, u) ==
  [k |-> "bnd", x |-> x, haslo |-> haslo, lo |-> lo, hashi |-> hashi, hi |-> hi, il |-> il, iu |-> iu, hasfail |-> hasfail, fail |-> 17, n |-> n, u |-> u]
D(N, d) == [op |-> "dist", N |-> N, d |-> d]
Us == {"", "days", "weeks"}

Small == {T2("int", 0, 1, ""), T2("int", 1, 3, "weeks"), T2("unif", 1, 3, ""), Tx("pdf", Cs(<<2, 5>>), <<1, 1>>, ""), Tx("pdf", Cs(<<2, 0>>), <<1, 2>>, ""), Const(2, "weeks")}

Ops(T) ==
  CASE Scn = "leaf" ->
         UNION {{D(12, T2("int", a, b, u)), D(6, T2("unif", a, b, u))} : a \in {-1, 0, 2}, b \in {-1, 2, 3}, u \in Us}
         \cup {D(12, T3("tri", a, b, m, u)) : a \in {0, 1}, b \in {1, 4}, m \in {1, 2, 4}, u \in Us}
         \cup {D(12, T2("exp", a, 1, u)) : a \in {0, 1, 3}, u \in Us}
         \cup {D(12, T3("weib", a, 1, m, u)) : a \in {1, 3}, m \in {1, 2}, u \in Us}
         \cup {D(20, T2("pois", p[1], p[2], "")) : p \in {<<1, 2>>, <<1, 1>>, <<2, 1>>, <<3, 1>>}}
         \cup {D(1, T2(k, a, b, u)) : k \in {"norm", "gamma", "erlang"}, a \in {1, 4}, b \in {1, 2}, u \in Us}
         \cup {D(1, T2("beta", a, b, "")) : a \in {1, 2}, b \in {1, 3}}
         \cup {D(Max({1, p + q + r}), Tx("pdf", Cs(<<3, 1, 8>>), <<p, q, r>>, u)) : p \in {0, 1, 2}, q \in {0, 1}, r \in {0, 1, 3}, u \in Us}
         \cup {D(12, Tx("cumpdf", Cs(<<3, 1, 8>>), <<p, q, r>>, u)) : p \in {0, 1}, q \in {0, 1, 3}, r \in {0, 3, 6}, u \in Us}
         \cup {D(12, Tx("cdf", <<-1, 2, x>>, <<p, q, r>>, u)) : x \in {1, 2, 6}, p \in {0, 1}, q \in {0, 1, 3}, r \in {0, 3, 4}, u \in Us}
         \cup {[op |-> "draw", N |-> 6, x |-> x, p |-> p, n |-> n] : x \in {<<5, 2, 7>>, <<4, 4, 1>>}, p \in {<<1, 1, 1>>, <<1, 2, 1>>}, n \in 0..4}
    [] Scn = "expr" ->
         {D(6, Expr(op, x, y)) : op \in {"add", "sub", "mul"}, x \in Small \cup {C(0), C(3)}, y \in Small}
         \cup {D(6, Expr(op, x, C(c))) : op \in {"add", "sub", "mul", "div"}, x \in Small, c \in {1, 2, -3}}
         \cup {D(6, Expr("floordiv", x, C(c))) : x \in {z \in Small : z.k # "pdf" /\ z.u = ""}, c \in {1, 2, -3}}
         \cup {D(6, Expr("pow", x, C(c))) : x \in Small, c \in 0..2}
         \cup {D(6, Expr(op, C(5), T2("int", 1, 2, ""))) : op \in {"div", "floordiv", "pow"}}
         \cup {D(6, [k |-> "map", f |-> f, x |-> x, u |-> ""]) : f \in {"double", "square", "one"}, x \in Small}
         \cup {D(6, Tx("pdf", <<x, y, C(1)>>, p, "")) : x \in Small, y \in Small, p \in {<<1, 1, 1>>, <<2, 0, 1>>, <<1, 0, 1>>}}
         \cup {D(6, Tx("cumpdf", <<x, C(1)>>, <<1, 3>>, u)) : x \in Small, u \in {"", "weeks"}}
         \cup {D(6, Expr("sub", Expr("mul", x, C(2)), x)) : x \in {T2("int", 0, 1, ""), T2("int", 1, 3, "weeks")}}
    [] Scn = "bound" ->
         {D(6, Bnd(x, l # 99, l, u # 99, u, il, iu, f, n, "")) : x \in Small \ {Const(2, "weeks")}, l \in {99, 1, 2}, u \in {99, 1, 3}, il \in BOOLEAN, iu \in BOOLEAN, f \in BOOLEAN, n \in {0, 1, 2}}
         \cup {D(6, Bnd(x, TRUE, 1, FALSE, 0, TRUE, TRUE, FALSE, 1, "weeks")) : x \in Small}
         \cup {D(1, Bnd(Const(a, ""), l, 1, u, 3, il, iu, f, 100, "")) : a \in 0..4, l \in BOOLEAN, u \in BOOLEAN, il \in BOOLEAN, iu \in BOOLEAN, f \in BOOLEAN}
         \cup {D(4, Bnd(Tx("pdf", <<[k |-> "text", a |-> 100001, u |-> ""], C(5)>>, <<1, 1>>, ""), TRUE, 1, TRUE, hi, TRUE, TRUE, FALSE, 2, "")) : hi \in {3, 7}}
    [] Scn = "streams" ->
         {[op |-> "sample", i |-> i, k |-> k] : i \in 1..Len(T.st), k \in {"uniform", "normal"}}
         \cup {[op |-> "sample", i |-> 1, k |-> "model"], [op |-> "reseed", i |-> 1, seed |-> "none"]}
         \cup {[op |-> "reseed", i |-> i, seed |-> s] : i \in 1..Len(T.st), s \in {"1", "*"}}
         \cup {[op |-> "newenv", seed |-> s] : s \in {"1", "none", ""}}
         \cup (IF Len(T.st) > 1 THEN {} ELSE {[op |-> "stream", seed |-> s] : s \in {"1", "1234567"}})

Init ==
  /\ S = InitState(Scenario.g)
  /\ h = <<>>
  /\ (Emit => PrintT(<<"G", ToJson(Scenario.g)>>))

Next ==
  /\ Len(h) < Depth
  /\ \E o \in Ops(S) :
       LET T == Apply(S, o)
           v == StateViolations(T) \cup StepViolations(S, o, T) \cup (IF MeanLaw(o, T) THEN {} ELSE {"mean is not that of the measure"})
       IN /\ S' = T
          /\ h' = Append(h, o)
          /\ v # {} => PrintT(<<"FAIL", ToJson(v), ToJson(h')>>)
          /\ Emit => PrintT(<<"T", ToJson(h'), ToJson(Obs(T))>>)

Spec == Init /\ [][Next]_vars
View == <<S, Len(h)>>
PropsHold == StateViolations(S) = {}
Done == PrintT(<<"DONE", TLCGet("distinct"), TLCGet("generated")>>)
=============================================================================
