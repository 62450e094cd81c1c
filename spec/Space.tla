------------------------------- MODULE Space -------------------------------
(* Points are sequences of integers: coordinates on a lattice. All squared    *)
(* distances are therefore exact integers.                                    *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL X == INSTANCE SequencesExt

Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b

SumSeq(s) == X!FoldLeft(LAMBDA a, b : a + b, 0, s)

(* Written out per dimension because TLC evaluates tuples once, functions again and again. *)
Add(p, q) ==
  CASE Len(p) = 1 -> <<p[1] + q[1]>>
    [] Len(p) = 2 -> <<p[1] + q[1], p[2] + q[2]>>
    [] Len(p) = 3 -> <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
    [] Len(p) = 5 -> <<p[1] + q[1], p[2] + q[2], p[3] + q[3], p[4] + q[4], p[5] + q[5]>>
Sub(p, q) ==
  CASE Len(p) = 1 -> <<p[1] - q[1]>>
    [] Len(p) = 2 -> <<p[1] - q[1], p[2] - q[2]>>
    [] Len(p) = 3 -> <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
    [] Len(p) = 5 -> <<p[1] - q[1], p[2] - q[2], p[3] - q[3], p[4] - q[4], p[5] - q[5]>>
Scale(p, s) ==
  CASE Len(p) = 1 -> <<p[1] * s>>
    [] Len(p) = 2 -> <<p[1] * s, p[2] * s>>
    [] Len(p) = 3 -> <<p[1] * s, p[2] * s, p[3] * s>>
    [] Len(p) = 5 -> <<p[1] * s, p[2] * s, p[3] * s, p[4] * s, p[5] * s>>
Zero(dim) == CASE dim = 1 -> <<0>> [] dim = 2 -> <<0, 0>> [] dim = 3 -> <<0, 0, 0>> [] dim = 5 -> <<0, 0, 0, 0, 0>>

(* The squared Euclidean distance. *)
D2(p, q) ==
  CASE Len(p) = 1 -> Sq(p[1] - q[1])
    [] Len(p) = 2 -> Sq(p[1] - q[1]) + Sq(p[2] - q[2])
    [] Len(p) = 3 -> Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
    [] Len(p) = 5 -> Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3]) + Sq(p[4] - q[4]) + Sq(p[5] - q[5])

Norm2(p) == D2(p, Zero(Len(p)))

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* The coordinate-wise sum of the points of pts with indices in S. *)
VecSum(pts, S, dim) == X!FoldLeft(LAMBDA sum, i : Add(sum, pts[i]), Zero(dim), X!SetToSeq(S))

Range(s) == {s[i] : i \in DOMAIN s}
NoRepeat(s) == Cardinality(Range(s)) = Len(s)

(* All non-decreasing sequences of length n over an ordered list of values:   *)
(* datasets up to the order of their points.                                  *)
Sorted(values, n) ==
  LET m == Len(values)
      Idx == {f \in [1..n -> 1..m] : \A i \in 1..(n - 1) : f[i] <= f[i + 1]}
  IN {[i \in 1..n |-> values[f[i]]] : f \in Idx}

(* The s-th smallest element (s >= 1) of the multiset {f[x] : x \in DOMAIN f}. *)
KthSmallest(f, s) ==
  CHOOSE v \in {f[x] : x \in DOMAIN f} :
    /\ Cardinality({x \in DOMAIN f : f[x] < v}) < s
    /\ Cardinality({x \in DOMAIN f : f[x] <= v}) >= s
=============================================================================
