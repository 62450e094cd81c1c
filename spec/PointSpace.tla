----------------------------- MODULE PointSpace -----------------------------
(* Points as a register machine (P21): two registers a and b and in-place     *)
(* operations, as src/math/point.rs offers them. The laws that the rest of    *)
(* the system builds on are checked for every reachable pair.                 *)
EXTENDS Space, TLC

CONSTANTS Dim, Lim, Scalars,
          Wrong     \* FALSE; TRUE: an operation that forgets the last coordinate

VARIABLES a, b, last
vars == <<a, b, last>>

Pts == IF Dim = 2 THEN {<<x, y>> : x, y \in -Lim..Lim} ELSE {<<x, y, z>> : x, y, z \in -Lim..Lim}
Inside(p) == \A c \in DOMAIN p : Abs(p[c]) <= Lim
Plus(p, q) == IF Wrong THEN [Add(p, q) EXCEPT ![Dim] = p[Dim]] ELSE Add(p, q)

Init == a \in Pts /\ b \in Pts /\ last = <<"init">>
AddAssign == Inside(Plus(a, b)) /\ a' = Plus(a, b) /\ b' = b /\ last' = <<"add", a, b>>
SubAssign == Inside(Sub(a, b)) /\ a' = Sub(a, b) /\ b' = b /\ last' = <<"sub", a, b>>
MulAssign == \E s \in Scalars : Inside(Scale(a, s)) /\ a' = Scale(a, s) /\ b' = b /\ last' = <<"mul", a, s>>
SetZero   == a' = Zero(Dim) /\ b' = b /\ last' = <<"zero", a>>
Swap      == a' = b /\ b' = a /\ last' = <<"swap">>
Next == AddAssign \/ SubAssign \/ MulAssign \/ SetZero \/ Swap
Spec == Init /\ [][Next]_vars
View == <<a, b>>

Componentwise == [][\A c \in 1..Dim : CASE last'[1] = "add"  -> a'[c] = a[c] + b[c]
                                        [] last'[1] = "sub"  -> a'[c] = a[c] - b[c]
                                        [] last'[1] = "mul"  -> a'[c] = a[c] * last'[3]
                                        [] last'[1] = "zero" -> a'[c] = 0
                                        [] OTHER -> TRUE]_vars
Metric == /\ D2(a, b) = D2(b, a)
          /\ (D2(a, b) = 0) <=> (a = b)
          /\ D2(a, b) >= 0
          /\ D2(a, b) = Norm2(Sub(a, b))
(* The Euclidean distance satisfies the triangle inequality; the squared one does not. *)
Triangle(x, y, z) == LET t == z - x - y IN t <= 0 \/ Sq(t) <= 4 * x * y
EuclidTriangle == \A p \in Pts : Triangle(D2(a, p), D2(p, b), D2(a, b))
SquaredTriangle == \A p \in Pts : D2(a, p) + D2(p, b) >= D2(a, b)    \* does not hold
Inverse == Inside(Add(a, b)) => Sub(Add(a, b), b) = a
=============================================================================
