----------------------------- MODULE TraceColor -----------------------------
(* Recorded conversions of the real code (P08, P09). One event per judged     *)
(* value.                                                                     *)
EXTENDS TraceBase, Color

XyzTol == 100     \* 1e-5
LabTol == 1000    \* 0.01
Tol    == 100     \* 1e-5 in linear light
Names(in) ==
  CASE in.op = "color"   -> IF in.judge = "P08" THEN <<"xyz", "lab">> ELSE <<"lab", "back">>
    [] in.op = "lab"     -> <<"rgba">>
    [] in.op = "slab"    -> IF in.judge = "P08" THEN <<"count", "additive", "range", "lightness", "alpha", "worstxyz", "worstlab">>
                            ELSE <<"count", "trip">>
    [] in.op = "labslab" -> <<"total", "worst">>
Count(n) == IF Trace[n].outcome = "ok" THEN Len(Names(Trace[n].in)) ELSE 1
Init == c \in DOMAIN Trace /\ pos = 0 /\ st = 0

Close(v, w, tol) == \A i \in 1..3 : AbsV(v[i] - w[i]) <= tol
(* The colours of a slab which are furthest from the specification (found by  *)
(* the harness with the tables of GenColor.tla), judged like any other.       *)
XyzOk(o) == Close(o.xyz, XyzOf(LightOf(o.c)), XyzTol)
LabOk(o) == Close(o.lab, LabOf(XyzOf(LightOf(o.c))), LabTol)
ColourOk(o) == Shows(o.lab, <<o.rgba[1], o.rgba[2], o.rgba[3]>>, Tol) /\ o.rgba[4] = 255
Why(name) ==
  CASE name = "xyz" -> IF Close(Out.xyz, XyzOf(LightOf(In.c)), XyzTol) THEN "" ELSE "XYZ is wrong"
    [] name = "lab" ->
         IF In.judge = "P08"
         THEN IF Close(Out.lab, LabOf(XyzOf(LightOf(In.c))), LabTol) THEN "" ELSE "L*a*b* is wrong"
         ELSE IF Shows(Out.lab, <<Out.back[1], Out.back[2], Out.back[3]>>, Tol) THEN ""
              ELSE "not the colour of the L*a*b* value"
    [] name = "back" -> IF Out.back = <<In.c[1], In.c[2], In.c[3], 255>> THEN "" ELSE "another colour after the round trip"
    [] name = "rgba" -> IF /\ Out.rgba[4] = 255
                           /\ Shows(Out.lab, <<Out.rgba[1], Out.rgba[2], Out.rgba[3]>>, Tol)
                        THEN "" ELSE "not the colour of the L*a*b* value"
    [] name = "count" -> IF Out.n = 65536 THEN "" ELSE "witness: not all colours"
    [] name = "additive" -> IF Out.defect <= XyzTol THEN "" ELSE "XYZ is not additive in the channels"
    [] name = "range" -> IF /\ Out.lo[1] >= 0 /\ Out.hi[1] <= 10000000
                            /\ \A i \in 2..3 : Out.lo[i] >= -12800000 /\ Out.hi[i] <= 12700000
                         THEN "" ELSE "L*a*b* out of range"
    [] name = "lightness" -> IF Out.falls = <<>> THEN "" ELSE "lightness falls when a channel grows: " \o ToString(Out.falls)
    [] name = "alpha" -> IF Out.alpha = 0 THEN "" ELSE "the conversion depends on alpha"
    [] name = "worstxyz" -> IF XyzOk(Out.worst[1]) THEN "" ELSE "XYZ is wrong: " \o ToString(Out.worst[1])
    [] name = "worstlab" -> IF LabOk(Out.worst[2]) THEN "" ELSE "L*a*b* is wrong: " \o ToString(Out.worst[2])
    [] name = "worst" -> IF \A k \in DOMAIN Out.worst : ColourOk(Out.worst[k]) THEN ""
                         ELSE "not the colour of the L*a*b* value: " \o ToString(Out.worst)
    [] name = "trip" -> IF Out.trip = <<>> THEN "" ELSE "another colour after the round trip: " \o ToString(Out.trip)
    [] name = "total" -> IF Out.n # ((255000 \div In.step) + 1) * ((255000 \div In.step) + 1) THEN "witness: not all values"
                         ELSE IF Out.bad = <<>> THEN "" ELSE "no opaque colour for " \o ToString(Out.bad)

Judge ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Names(In))
  /\ Consume(Why(Names(In)[pos + 1]), 0)
Next == Broken \/ Judge
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
