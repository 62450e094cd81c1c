------------------------------- MODULE KMeans -------------------------------
(* What seeding, one iteration and stopping of k-means mean (P13, P14, P15).  *)
(* A centroid is an exact rational point <<sum, n>>: sum / n coordinate-wise. *)
EXTENDS Space

(* n^2 times the squared distance of the lattice point p to the centroid. *)
Num(p, cent) == Norm2(Sub(Scale(p, cent[2]), cent[1]))
NotFurther(p, a, b) == Num(p, a) * Sq(b[2]) <= Num(p, b) * Sq(a[2])
NearestSet(p, cents) == {j \in DOMAIN cents : \A o \in DOMAIN cents : NotFurther(p, cents[j], cents[o])}

Mean(pts, S, dim) == <<VecSum(pts, S, dim), Cardinality(S)>>
(* The squared distance that a centroid moved is Moved / Base. *)
Moved(a, b) == Norm2(Sub(Scale(a[1], b[2]), Scale(b[1], a[2])))
Base(a, b) == Sq(a[2] * b[2])

(* ---- one iteration: cents are the previous centroids, members the sets --- *)
AssignmentError(pts, cents, members) ==
  IF Len(members) # Len(cents) THEN "the number of clusters changed"
  ELSE IF \E j \in DOMAIN members : members[j] \ DOMAIN pts # {} THEN "not a point of the dataset"
  ELSE IF \E i, j \in DOMAIN members : i # j /\ members[i] \cap members[j] # {} THEN "a point is in two clusters"
  ELSE IF UNION {members[j] : j \in DOMAIN members} # DOMAIN pts THEN "a point is in no cluster"
  ELSE IF \E j \in DOMAIN members : \E i \in members[j] :
            \E o \in DOMAIN cents : ~NotFurther(pts[i], cents[j], cents[o]) THEN "a point is not with a nearest centroid"
  ELSE ""

Update(pts, cents, members, dim) ==
  [j \in DOMAIN cents |-> IF members[j] = {} THEN cents[j] ELSE Mean(pts, members[j], dim)]

(* ---- seeds --------------------------------------------------------------- *)
Occurs(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SeedsError(pts, k, seeds) ==
  IF Len(seeds) # Min(k, Len(pts)) THEN "not min(k, size) initial centroids"
  ELSE IF \E j \in DOMAIN seeds : seeds[j] \notin Range(pts) THEN "an initial centroid is not a point of the dataset"
  ELSE IF \E j \in DOMAIN seeds : Occurs(seeds, seeds[j]) > Occurs(pts, seeds[j]) THEN "a point is chosen twice"
  ELSE ""

DistTo(p, chosen) == MinOf({D2(p, q) : q \in chosen})
(* Points equal to a chosen one are at distance 0 and further than nothing.   *)
SpreadError(pts, seeds) ==
  LET places == Range(pts)
      Chosen(j) == Range(SubSeq(seeds, 1, j - 1))
  IN IF \E j \in 2..Len(seeds) :
          \E done \in {Chosen(j)} :
            \E mine \in {DistTo(seeds[j], done)} :
              \E p \in places : DistTo(p, done) > mine
     THEN "a point further from the chosen ones was left"
     ELSE ""
=============================================================================
