------------------------------- MODULE Linkage -------------------------------
(* Single-linkage hierarchies (P17) and cutting them (P18). Points and nodes  *)
(* are numbered from 1: points 1..n, the t-th merge makes node n + t.         *)
(* A current cluster is [id, pts].                                            *)
EXTENDS Integers, Sequences, FiniteSets

Singles(n) == {[id |-> i, pts |-> {i}] : i \in 1..n}
Ids(cl) == {x.id : x \in cl}
Of(cl, id) == CHOOSE x \in cl : x.id = id

(* Single-linkage distance of two sets of points, and of the nearest pair of  *)
(* current clusters.                                                          *)
Least(D) == CHOOSE d \in D : \A e \in D : d <= e
Link(w, A, B) == Least({w[a][b] : a \in A, b \in B})
Smallest(w, cl) ==
  LET D == UNION {{Link(w, x.pts, y.pts) : y \in cl \ {x}} : x \in cl}
  IN CHOOSE d \in D : \A e \in D : d <= e

MergeError(w, cl, l, r, weight, size) ==
  IF l = r \/ l \notin Ids(cl) \/ r \notin Ids(cl) THEN "does not join two different current clusters"
  ELSE LET A == Of(cl, l).pts
           B == Of(cl, r).pts
       IN IF Link(w, A, B) # Smallest(w, cl) THEN "the joined clusters are not a nearest pair"
          ELSE IF weight # Link(w, A, B) THEN "the weight is not the distance of the clusters"
          ELSE IF size # Cardinality(A) + Cardinality(B) THEN "the size is not the number of points"
          ELSE ""

(* Whether every merge joins a nearest pair can be told at the end of a       *)
(* complete hierarchy with ascending weights: it is enough that every weight  *)
(* is the distance of the joined clusters (Dendrogram.tla, DeferredSound).    *)
LateMergeError(w, cl, l, r, weight, size) ==
  IF l = r \/ l \notin Ids(cl) \/ r \notin Ids(cl) THEN "does not join two different current clusters"
  ELSE LET A == Of(cl, l).pts
           B == Of(cl, r).pts
       IN IF weight # Link(w, A, B) THEN "the weight is not the distance of the clusters"
          ELSE IF size # Cardinality(A) + Cardinality(B) THEN "the size is not the number of points"
          ELSE ""

Merge(cl, l, r, new) ==
  LET A == Of(cl, l)
      B == Of(cl, r)
  IN (cl \ {A, B}) \cup {[id |-> new, pts |-> A.pts \cup B.pts]}

(* The current clusters after the first m merges <<left, right, ...>>. *)
RECURSIVE After(_, _, _)
After(n, merges, m) ==
  IF m = 0 THEN Singles(n)
  ELSE Merge(After(n, merges, m - 1), merges[m][1], merges[m][2], n + m)

(* labels: one per point, from 0; cl: the clusters after n - k merges. *)
PartitionError(n, cl, k, labels) ==
  IF Len(labels) # n THEN "not one label per point"
  ELSE IF k < 2 THEN (IF \E i \in 1..n : labels[i] # 0 THEN "not all labels are 0" ELSE "")
  ELSE IF {labels[i] : i \in 1..n} # 0..(k - 1) THEN "not exactly the labels 0..k-1"
  ELSE IF \E x \in cl : Cardinality({labels[i] : i \in x.pts}) # 1 THEN "points joined before the cut are apart"
  ELSE IF Cardinality(cl) # k THEN "points not joined before the cut share a label"
  ELSE ""
=============================================================================
