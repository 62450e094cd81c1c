---------------------------- MODULE TraceDbscan ----------------------------
(* Recorded clusterings of the real DBSCAN. One event per cluster, then one   *)
(* for the clustering as a whole. The state is the set of points that the     *)
(* clusters so far have taken.                                                *)
EXTENDS TraceBase, Space, Clustering

FP == 1024   \* unit of logged centroids

Count(n) == IF Trace[n].outcome # "ok" THEN 1 ELSE Len(Trace[n].out.members) + 1

Init == c \in DOMAIN Trace /\ pos = 0 /\ st = {}

Tolerance == IF In.prec = "f32" THEN 4 ELSE 1

(* The logged centroid is the mean of the points of S. *)
IsMean(cent, S) ==
  LET sum == VecSum(In.pts, S, In.dim)
      n == Cardinality(S)
  IN \A a \in 1..In.dim : /\ Abs(cent[a] \div FP - sum[a] \div n) <= 3   \* the products below fit 32 bits
                          /\ Abs((cent[a] - (sum[a] \div n) * FP) * n - (sum[a] % n) * FP) <= n * Tolerance

(* ---- large datasets on a plane of the lattice ----------------------------- *)
(* In.axes: the two coordinates that vary; In.at[y + 1][x + 1]: the point at   *)
(* (x, y) of the plane, 0 for none. Neighbours are looked up instead of all    *)
(* pairs being compared.                                                       *)
OnPlane == "at" \in DOMAIN In
X(i) == In.pts[i][In.axes[1]]
Y(i) == In.pts[i][In.axes[2]]
PlaneOk ==
  /\ \A i \in DOMAIN In.pts : /\ In.at[Y(i) + 1][X(i) + 1] = i
                               /\ \A a \in (1..In.dim) \ {In.axes[1], In.axes[2]} : In.pts[i][a] = In.pts[1][a]
At(x, y) == IF y + 1 \in DOMAIN In.at THEN (IF x + 1 \in DOMAIN In.at[y + 1] THEN In.at[y + 1][x + 1] ELSE 0) ELSE 0
Offsets == LET r == CHOOSE r \in 0..100 : (r + 1) * (r + 1) > In.r2 /\ r * r <= In.r2
           IN {o \in (-r..r) \X (-r..r) : o[1] * o[1] + o[2] * o[2] <= In.r2}
Near == IF OnPlane
        THEN CHOOSE f \in {[i \in DOMAIN In.pts |-> {At(X(i) + o[1], Y(i) + o[2]) : o \in offs} \ {0}] : offs \in {Offsets}} : TRUE
        ELSE [i \in DOMAIN In.pts |-> {j \in DOMAIN In.pts : In.r2 >= 0 /\ D2(In.pts[i], In.pts[j]) <= In.r2}]

TakeCluster ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Out.members)
  /\ LET m == Out.members[pos + 1]
         S == Range(m)
     IN Consume(IF Len(Out.cents) # Len(Out.members) \/ Len(Out.counts) # Len(Out.members) THEN "numbers of clusters differ"
                ELSE IF S = {} THEN "an empty cluster"
                ELSE IF \E i \in S : i \notin DOMAIN In.pts THEN "not a point of the dataset"
                ELSE IF Cardinality(S) # Len(m) \/ S \cap st # {} THEN "a point is in two clusters"
                ELSE IF Out.counts[pos + 1] # Len(m) THEN "the count is not the number of points"
                ELSE IF ~IsMean(Out.cents[pos + 1], S) THEN "the centroid is not the mean of the points"
                ELSE "", st \cup S)


Whole ==
  /\ Ok /\ pos = Len(Out.members)
  /\ OnPlane => Assert(PlaneOk, "the driver's plane is not that of the points")
  /\ LET near == TLCEval(Near)
         clusters == [k \in DOMAIN Out.members |-> Range(Out.members[k])]
     IN Consume(IF ~NoRepeat(Out.outliers) THEN "an outlier is listed twice"
                ELSE ClusteringError(Len(In.pts), near, In.minpts, clusters, Range(Out.outliers)), st)

Next == Broken \/ TakeCluster \/ Whole
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
