------------------------------- MODULE Lloyd -------------------------------
(* k-means of src/math/clustering/kmeans as a machine: seeding point by point *)
(* and then iterating. Coordinates are scaled by 12, so that all means of up  *)
(* to four points are integers (1-dimensional points are enough).             *)
EXTENDS KMeans, TLC

CONSTANTS MaxN, Coords, MaxK, Tols, Limits,
          PlusPlus,    \* which initializers
          Reuse,       \* FALSE: the code; TRUE: a chosen point can be chosen again (baseline)
          EmptyRule,   \* "keep": the code; "zero": an empty cluster moves to the origin (baseline)
          StopRule     \* "all": the code; "any": one settled cluster is enough (baseline)

VARIABLES pts, k, pp, tol, limit,   \* input
          chosen,                   \* indices of the seeds, in order
          cents, members, iter, phase, settled
vars == <<pts, k, pp, tol, limit, chosen, cents, members, iter, phase, settled>>
input == <<pts, k, pp, tol, limit>>

Line == [i \in 1..Cardinality(Coords) |-> <<12 * (i - 1)>>]

Init ==
  /\ \E n \in 1..MaxN : pts \in Sorted(Line, n)
  /\ k \in 1..Min(MaxK, Len(pts) - 1)
  /\ pp \in PlusPlus /\ tol \in Tols /\ limit \in Limits
  /\ chosen = <<>> /\ cents = <<>> /\ members = <<>> /\ iter = 0
  /\ phase = "seed" /\ settled = FALSE

Values == [j \in DOMAIN chosen |-> pts[chosen[j]]]
Free == IF Reuse THEN DOMAIN pts ELSE DOMAIN pts \ Range(chosen)

Seed ==
  /\ phase = "seed" /\ Len(chosen) < k
  /\ \E i \in Free :
       /\ pp /\ chosen # <<>> =>
            \A o \in Free : DistTo(pts[o], Range(Values)) <= DistTo(pts[i], Range(Values))
       /\ chosen' = Append(chosen, i)
  /\ UNCHANGED <<input, cents, members, iter, phase, settled>>

Start ==
  /\ phase = "seed" /\ Len(chosen) = k
  /\ cents' = [j \in 1..k |-> <<pts[chosen[j]], 1>>]
  /\ members' = [j \in 1..k |-> {}]
  /\ phase' = IF limit = 0 THEN "done" ELSE "run"
  /\ UNCHANGED <<input, chosen, iter, settled>>

Small(a, b) == Moved(a, b) < Sq(tol) * Base(a, b)

Iterate ==
  /\ phase = "run"
  \* (a bound variable instead of a LET: TLC evaluates it once)
  /\ \E near \in {[i \in DOMAIN pts |-> NearestSet(pts[i], cents)]} :
        \E f \in {f \in [DOMAIN pts -> 1..k] : \A i \in DOMAIN pts : f[i] \in near[i]} :
          members' = TLCEval([j \in 1..k |-> {i \in DOMAIN pts : f[i] = j}])
  /\ cents' = TLCEval([j \in 1..k |-> IF members'[j] # {} THEN Mean(pts, members'[j], 1)
                                     ELSE IF EmptyRule = "keep" THEN cents[j] ELSE <<<<0>>, 1>>])
  /\ LET calm == {j \in 1..k : members'[j] = {} \/ Small(cents[j], cents'[j])}
     IN settled' = IF StopRule = "all" THEN calm = 1..k ELSE calm # {}
  /\ iter' = iter + 1
  /\ phase' = IF settled' \/ iter' = limit THEN "done" ELSE "run"
  /\ UNCHANGED <<input, chosen>>

Next == Seed \/ Start \/ Iterate
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

(* P14 *)
Spread == phase # "seed" => SeedsError(pts, k, Values) = "" /\ (pp => SpreadError(pts, Values) = "")
(* P13 *)
Partition == iter > 0 => /\ UNION {members[j] : j \in 1..k} = DOMAIN pts
                         /\ \A i, j \in 1..k : i # j => members[i] \cap members[j] = {}
Cost == LET D(i) == MinOf({Num(pts[i], cents[j]) * (144 \div Sq(cents[j][2])) : j \in 1..k})
        IN SumSeq(TLCEval([i \in DOMAIN pts |-> D(i)]))
Descent == [][phase = "run" => Cost' <= Cost]_vars
EmptyStays == [][phase = "run" => \A j \in 1..k : members'[j] = {} => cents'[j] = cents[j]]_vars
(* P15 *)
StopsInTime == iter <= limit /\ (phase = "done" /\ iter < limit => settled)
StopsSettled == [][phase = "run" /\ phase' = "done" /\ iter' < limit =>
                     \A j \in 1..k : members'[j] # {} => Small(cents[j], cents'[j])]_vars
GoesOn == [][phase = "run" /\ phase' = "run" =>
                     \E j \in 1..k : members'[j] # {} /\ ~Small(cents[j], cents'[j])]_vars
Termination == <>(phase = "done")
=============================================================================
