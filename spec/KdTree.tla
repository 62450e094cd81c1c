------------------------------- MODULE KdTree -------------------------------
(* The k-d tree search of src/math/neighbors/kdtree as a machine that visits  *)
(* one tree node per step. Sibling order, ties in the median and the order of *)
(* equal elements are free, so every tree that a (unstable) sort can lead to  *)
(* is covered.                                                                *)
EXTENDS Neighbors, TLC

CONSTANTS Coords,      \* coordinates of data points
          QCoords,     \* coordinates of queries
          MaxN,        \* size of datasets
          MaxK, MaxR2, \* arguments of queries
          Units,       \* "metric": prune on the distance along the axis in units of the metric
                       \* "raw":    prune on |delta| whatever the metric is (defect of the baseline)
          S,           \* lattice units per unit of length ("raw" only)
          KthRule      \* "kth": prune by the k-th best so far; "nearest": by the best (baseline)

VARIABLES pts, query, ask, stack, found
vars == <<pts, query, ask, stack, found>>

Nil == <<>>
(* All k-d trees of the points with the given indices. *)
RECURSIVE Trees(_, _, _)
Trees(data, ids, depth) ==
  IF ids = {} THEN {Nil}
  ELSE LET axis == (depth % 2) + 1
           Splits == {<<m, left>> \in ids \X SUBSET ids :
                        /\ m \notin left
                        /\ Cardinality(left) = Cardinality(ids) \div 2
                        /\ \A l \in left : data[l][axis] <= data[m][axis]
                        /\ \A r \in ids \ (left \cup {m}) : data[r][axis] >= data[m][axis]}
       IN UNION {{<<s[1], axis, l, r>> : l \in Trees(data, s[2], depth + 1),
                                          r \in Trees(data, ids \ (s[2] \cup {s[1]}), depth + 1)} : s \in Splits}


Asks == {<<"rad", r>> : r \in -1..MaxR2} \cup {<<"knn", k>> : k \in 1..MaxK}

Grid == [i \in 1..(Cardinality(Coords) * Cardinality(Coords)) |->
           <<((i - 1) \div Cardinality(Coords)) + MinOf(Coords), ((i - 1) % Cardinality(Coords)) + MinOf(Coords)>>]

Init ==
  /\ \E n \in 0..MaxN : pts \in Sorted(Grid, n)
  /\ query \in QCoords \X QCoords
  /\ ask \in Asks
  /\ \E t \in Trees(pts, DOMAIN pts, 0) : stack = IF ask = <<"rad", -1>> THEN <<>> ELSE <<t>>
  /\ found = {}

Dist(i) == D2(pts[i], query)
(* Does the other side of the splitting plane have to be searched, with the bound b on d2? *)
Reaches(delta, b) ==
  IF Units = "metric" THEN Sq(delta) <= b ELSE Abs(delta) * S <= b

Bound(f) ==
  IF ask[1] = "rad" THEN ask[2]
  ELSE IF Cardinality(f) < ask[2] THEN 1000000
  ELSE KthSmallest([i \in f |-> Dist(i)], IF KthRule = "kth" THEN ask[2] ELSE 1)

Visit ==
  /\ stack # <<>>
  /\ LET node == Head(stack)
     IN IF node = Nil THEN stack' = Tail(stack) /\ found' = found
        ELSE LET i == node[1]
                 delta == query[node[2]] - pts[i][node[2]]
             IN /\ found' = IF ask[1] = "knn" \/ Dist(i) <= ask[2] THEN found \cup {i} ELSE found
                /\ IF node[3] = Nil /\ node[4] = Nil THEN stack' = Tail(stack)
                   ELSE IF Reaches(delta, Bound(found')) THEN
                          \/ stack' = <<node[3], node[4]>> \o Tail(stack)
                          \/ stack' = <<node[4], node[3]>> \o Tail(stack)
                   ELSE stack' = <<IF delta < 0 THEN node[3] ELSE node[4]>> \o Tail(stack)
  /\ UNCHANGED <<pts, query, ask>>

Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stack = <<>>
(* P11 *)
RadiusCorrect == Done /\ ask[1] = "rad" => found = WithinRadius(pts, query, ask[2])
(* P12: whichever k best of the visited points are reported, nobody left out is nearer. *)
KnnCorrect ==
  Done /\ ask[1] = "knn" =>
    /\ Cardinality(found) >= Min(ask[2], Len(pts))
    /\ \A s \in 1..Min(ask[2], Len(pts)) :
         KthSmallest([i \in found |-> Dist(i)], s) = KthSmallest([i \in DOMAIN pts |-> Dist(i)], s)
(* Nothing is visited twice, and the search ends. *)
RECURSIVE IdsOf(_)
IdsOf(t) == IF t = Nil THEN {} ELSE {t[1]} \cup IdsOf(t[3]) \cup IdsOf(t[4])
Frontier == \A a, b \in DOMAIN stack : a # b => IdsOf(stack[a]) \cap IdsOf(stack[b]) = {}
NoRevisit == Frontier /\ \A a \in DOMAIN stack : IdsOf(stack[a]) \cap found = {}
Termination == <>Done
=============================================================================
