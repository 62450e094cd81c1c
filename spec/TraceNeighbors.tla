--------------------------- MODULE TraceNeighbors ---------------------------
(* Recorded neighbour searches and core distances of the real code.           *)
EXTENDS TraceBase, Neighbors

Count(n) == IF Trace[n].outcome # "ok" THEN 1
            ELSE IF Trace[n].in.op = "core" THEN 1 ELSE Len(Trace[n].in.qs)

Init == c \in DOMAIN Trace /\ pos = 0 /\ st = 0

(* One search on the same index structure per step. *)
Search ==
  /\ Ok /\ In.op = "nn" /\ pos >= 0 /\ pos < Len(In.qs)
  /\ LET q == In.qs[pos + 1]
         a == Out[pos + 1]
     IN Consume(CASE q.t = "rad"  -> RadiusError(In.pts, q.q, q.r2, a)
                  [] q.t = "knn"  -> KnnError(In.pts, q.q, q.k, a)
                  [] q.t = "near" -> NearestError(In.pts, q.q, a), 0)

CoreDistances ==
  /\ Ok /\ In.op = "core" /\ pos = 0
  /\ Consume(CoreError(In.pts, In.m, Out), 0)

Next == Broken \/ Search \/ CoreDistances
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
