----------------------------- MODULE Neighbors -----------------------------
(* What the answers of neighbour searches mean (properties P11, P12, P19).    *)
(* An answer is a sequence of pairs <<index, squared distance>>.              *)
EXTENDS Space

(* ---- radius search: all points within the radius, each exactly once ------ *)
(* r2 < 0 stands for a negative radius.                                       *)
WithinRadius(pts, q, r2) == {i \in DOMAIN pts : r2 >= 0 /\ D2(pts[i], q) <= r2}

RadiusError(pts, q, r2, ans) ==
  LET found == {ans[n][1] : n \in DOMAIN ans}
      want  == WithinRadius(pts, q, r2)
  IN IF \E n \in DOMAIN ans : ans[n][1] \notin DOMAIN pts THEN "not a point of the dataset"
     ELSE IF Cardinality(found) # Len(ans) THEN "a point is returned twice"
     ELSE IF found \ want # {} THEN "a point outside of the radius is returned"
     ELSE IF want \ found # {} THEN "a point within the radius is missing"
     ELSE IF \E n \in DOMAIN ans : ans[n][2] # D2(pts[ans[n][1]], q) THEN "wrong distance"
     ELSE ""

(* ---- k-nearest search ---------------------------------------------------- *)
KnnError(pts, q, k, ans) ==
  LET found == {ans[n][1] : n \in DOMAIN ans}
  IN IF \E n \in DOMAIN ans : ans[n][1] \notin DOMAIN pts THEN "not a point of the dataset"
     ELSE IF Cardinality(found) # Len(ans) THEN "a point is returned twice"
     ELSE IF Len(ans) # Min(k, Len(pts)) THEN "wrong number of neighbours"
     ELSE IF \E n \in DOMAIN ans : ans[n][2] # D2(pts[ans[n][1]], q) THEN "wrong distance"
     ELSE IF \E n \in 1..(Len(ans) - 1) : ans[n][2] > ans[n + 1][2] THEN "not in order of distance"
     ELSE IF Len(ans) > 0 /\ \E i \in (DOMAIN pts) \ found : D2(pts[i], q) < ans[Len(ans)][2]
          THEN "a point left out is nearer than a returned one"
     ELSE ""

(* ---- nearest search ------------------------------------------------------ *)
NearestError(pts, q, ans) ==
  IF Len(pts) = 0 THEN (IF Len(ans) = 0 THEN "" ELSE "a nearest point of nothing")
  ELSE IF Len(ans) # 1 THEN "no nearest point"
  ELSE KnnError(pts, q, 1, ans)

(* ---- core distances ------------------------------------------------------ *)
(* Distance to the m-th nearest other point, or the furthest if there are     *)
(* fewer; 0 if m is 0. A point without others has no specified one.           *)
IsCoreDistance(pts, i, m, d) ==
  IF m = 0 THEN d = 0 ELSE
  LET others == (DOMAIN pts) \ {i}
      s == Min(m, Cardinality(others))
  IN /\ Cardinality({o \in others : D2(pts[o], pts[i]) < d}) < s
     /\ Cardinality({o \in others : D2(pts[o], pts[i]) <= d}) >= s
     /\ \E o \in others : D2(pts[o], pts[i]) = d

CoreError(pts, m, dists) ==
  IF Len(dists) # Len(pts) THEN "not one core distance per point"
  ELSE IF Len(pts) >= 2 /\ \E i \in DOMAIN pts : ~IsCoreDistance(pts, i, m, dists[i]) THEN "wrong core distance"
  ELSE ""
=============================================================================
