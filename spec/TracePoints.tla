----------------------------- MODULE TracePoints -----------------------------
(* Recorded point arithmetic and distances of the real code (P21). Every      *)
(* operation is one event. Coordinates are logged in units of 1/1024.         *)
EXTENDS TraceBase, Space

FP == 1024
Names == <<"vec", "idx", "dim", "add", "adda", "sub", "suba", "mul", "mula", "div", "diva",
           "isz", "zero", "setz", "e", "er", "s", "sr">>
Count(n) == IF Trace[n].outcome = "ok" THEN Len(Names) ELSE 1
Init == c \in DOMAIN Trace /\ pos = 0 /\ st = 0

Fp(p) == Scale(p, FP)
Near(logged, num, den) ==  \* logged = num / den up to rounding
  Abs(logged * den - num) <= Abs(den)
Product(out) == /\ Len(out) = In.dim
                /\ \A i \in 1..In.dim : Near(out[i], In.a[i] * FP * In.num, In.den)
Quotient(out) == IF In.num = 0 THEN out = <<>>    \* panics
                 ELSE /\ Len(out) = In.dim
                      /\ \A i \in 1..In.dim : Near(out[i], In.a[i] * FP * In.den, In.num)

Holds(name) ==
  CASE name = "vec"  -> Out.vec = Fp(In.a)
    [] name = "idx"  -> Out.idx = Fp(In.a)
    [] name = "dim"  -> Out.dim = In.dim
    [] name = "add"  -> Out.add = Fp(Add(In.a, In.b))
    [] name = "adda" -> Out.adda = Fp(Add(In.a, In.b))
    [] name = "sub"  -> Out.sub = Fp(Sub(In.a, In.b))
    [] name = "suba" -> Out.suba = Fp(Sub(In.a, In.b))
    [] name = "mul"  -> Product(Out.muldiv[1])
    [] name = "mula" -> Product(Out.mula)
    [] name = "div"  -> Quotient(Out.muldiv[2])
    [] name = "diva" -> Quotient(Out.diva)
    [] name = "isz"  -> Out.isz = (In.a = Zero(In.dim))
    [] name = "zero" -> Out.zero = Zero(In.dim)
    [] name = "setz" -> Out.setz = Zero(In.dim)
    [] name = "e"    -> Out.e = D2(In.a, In.b)
    [] name = "er"   -> Out.er = D2(In.a, In.b)
    [] name = "s"    -> Out.s = D2(In.a, In.b)
    [] name = "sr"   -> Out.sr = D2(In.a, In.b)

Operation ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Names)
  /\ Consume(IF Holds(Names[pos + 1]) THEN "" ELSE "wrong result of " \o Names[pos + 1], 0)

Next == Broken \/ Operation
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
