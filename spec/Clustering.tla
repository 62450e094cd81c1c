----------------------------- MODULE Clustering -----------------------------
(* What a density-based clustering is (properties P10 and P01).               *)
(* Points are 1..n; near[i] is the set of points within the radius of i,      *)
(* i included; a point is core if near[i] has at least minpts elements.       *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL X == INSTANCE SequencesExt

(* A point that has not even itself within the radius (a negative one) is no core point. *)
Cores(n, near, minpts) == {i \in 1..n : near[i] # {} /\ Cardinality(near[i]) >= minpts}

(* All points of S reachable from F through S: one wave after the other, until a wave is empty. *)
Flood(F, S, near) ==
  LET Wave(w, k) == IF w[1] = {} THEN w
                    ELSE LET all == w[2] \cup w[1] IN <<((UNION {near[i] : i \in w[1]}) \cap S) \ all, all>>
  IN X!FoldLeft(Wave, <<F, {}>>, [k \in 1..(Cardinality(S) + 1) |-> k])[2]

(* clusters: sequence of sets of points; outliers: set of points.             *)
ClusteringError(n, near, minpts, clusters, outliers) ==
  LET C == Cores(n, near, minpts)
      Part(k) == clusters[k] \cap C
  IN IF \E k \in DOMAIN clusters : clusters[k] \ (1..n) # {} \/ outliers \ (1..n) # {} THEN "not a point of the dataset"
     ELSE IF \E j, k \in DOMAIN clusters : j # k /\ clusters[j] \cap clusters[k] # {} THEN "a point is in two clusters"
     ELSE IF \E k \in DOMAIN clusters : clusters[k] \cap outliers # {} THEN "a point is in a cluster and an outlier"
     ELSE IF (UNION {clusters[k] : k \in DOMAIN clusters}) \cup outliers # 1..n THEN "a point is neither in a cluster nor an outlier"
     ELSE IF outliers \cap C # {} THEN "a core point is an outlier"
     ELSE IF \E o \in outliers : near[o] \cap C # {} THEN "a point next to a core point is an outlier"
     ELSE IF \E k \in DOMAIN clusters : Part(k) = {} THEN "a cluster without core point"
     ELSE IF \E k \in DOMAIN clusters : \E i \in clusters[k] \ C : near[i] \cap Part(k) = {}
          THEN "a border point is in a cluster of no adjacent core point"
     ELSE IF \E k \in DOMAIN clusters : Flood({CHOOSE i \in Part(k) : TRUE}, Part(k), near) # Part(k)
          THEN "a cluster is not connected through core points"
     ELSE IF \E k \in DOMAIN clusters : \E i \in Part(k) : \E j \in near[i] : j \in C /\ j \notin clusters[k]
          THEN "adjacent core points are in different clusters"
     ELSE ""
=============================================================================
