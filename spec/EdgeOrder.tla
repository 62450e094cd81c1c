----------------------------- MODULE EdgeOrder -----------------------------
(* The order of weighted edges (property P23): the lighter edge is the greater *)
(* one, so that a queue which returns a greatest element returns a lightest    *)
(* edge; edges are equal if their vertices and their weight are.               *)
EXTENDS Integers, Sequences, FiniteSets
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
(* An edge is <<u, v, weight>>. *)
Compare(a, b) == IF a[3] < b[3] THEN 1 ELSE IF a[3] > b[3] THEN -1 ELSE 0
Equal(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]

(* A bag of edges is a sequence whose order has no meaning. *)
Without(bag, i) == SubSeq(bag, 1, i - 1) \o SubSeq(bag, i + 1, Len(bag))
Held(bag, e) == \E i \in DOMAIN bag : bag[i] = e
Take(bag, e) == Without(bag, CHOOSE i \in DOMAIN bag : bag[i] = e)
Lightest(bag, e) == Held(bag, e) /\ \A i \in DOMAIN bag : e[3] <= bag[i][3]
=============================================================================
