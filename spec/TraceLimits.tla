---------------------------- MODULE TraceLimits ----------------------------
(* Recorded creations of colours (P24). A case holds several colours of one    *)
(* space; one event per colour: for every component whether it is the given    *)
(* number, and whether it is a limit (-1: the lower one, 1: the upper one).    *)
EXTENDS TraceBase, Limits

Count(n) == IF Trace[n].outcome = "ok" THEN Len(Trace[n].in.vs) ELSE 1
Range == IF In.space = "lab" THEN Lab ELSE Xyz
Right(v, r, got) ==
  LET w == Limited(v, r[1], r[2])
  IN IF w = v THEN got[1] = 1
     ELSE got[2] = (IF w[1] = r[1] THEN -1 ELSE 1)
Judge ==
  /\ Ok /\ pos >= 0 /\ pos < Len(In.vs)
  /\ LET v == In.vs[pos + 1] got == Out[pos + 1]
     IN Consume(IF \A i \in 1..3 : Right(v[i], Range[i], got[i]) THEN "" ELSE "not limited to the range", 0)
Init == c \in DOMAIN Trace /\ pos = 0 /\ st = 0
Next == Broken \/ Judge
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
