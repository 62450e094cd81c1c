----------------------------- MODULE Dendrogram -----------------------------
(* src/math/clustering/hierarchical as a machine: take any minimum spanning   *)
(* tree, join the ends of its edges in order of weight (ties in any order)    *)
(* with labelled union-find, then cut into k clusters by splitting the node   *)
(* with the greatest number again and again.                                  *)
EXTENDS Linkage, Trees, TLC

CONSTANTS N, Weights,
          Order,   \* "weight": edges in order of weight (the code); "any": unsorted
          Split    \* "last": the node with the greatest number (the code); "first": smallest

VARIABLES w, todo, cl, merges, k, nodes, phase
vars == <<w, todo, cl, merges, k, nodes, phase>>

Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Matrix(f) == [u \in 1..N |-> [v \in 1..N |-> IF u = v THEN 0 ELSE IF u < v THEN f[<<u, v>>] ELSE f[<<v, u>>]]]
AsSeq(E) == CHOOSE f \in [1..Cardinality(E) -> E] : {f[i] : i \in 1..Cardinality(E)} = E

Init ==
  /\ \E f \in [Pairs -> Weights] : w = Matrix(f)
  /\ LET all == {<<p[1], p[2], w[p[1]][p[2]]>> : p \in Pairs}
     IN todo \in {E \in SUBSET all : Cardinality(E) = N - 1 /\ Spans(N, E) /\ Minimal(N, w, AsSeq(E))}
  /\ cl = Singles(N) /\ merges = <<>> /\ k = 0 /\ nodes = {} /\ phase = "merge"

Root(v) == CHOOSE x \in cl : v \in x.pts

Join ==
  /\ phase = "merge" /\ todo # {}
  /\ \E e \in todo :
       /\ Order = "weight" => \A o \in todo : e[3] <= o[3]
       /\ LET a == Root(e[1])
              b == Root(e[2])
          IN /\ merges' = Append(merges, <<a.id, b.id, e[3], Cardinality(a.pts) + Cardinality(b.pts)>>)
             /\ cl' = Merge(cl, a.id, b.id, N + Len(merges) + 1)
       /\ todo' = todo \ {e}
  /\ UNCHANGED <<w, k, nodes, phase>>

Cut ==
  /\ phase = "merge" /\ todo = {}
  /\ k' \in 1..N
  /\ nodes' = {2 * N - 1} /\ phase' = "cut"
  /\ UNCHANGED <<w, todo, cl, merges>>

Open ==
  /\ phase = "cut" /\ Cardinality(nodes) < k
  /\ LET cand == IF Split = "last" THEN nodes ELSE {x \in nodes : x > N}
         n == CHOOSE x \in cand : \A y \in cand : IF Split = "last" THEN y <= x ELSE x <= y
     IN nodes' = (nodes \ {n}) \cup {merges[n - N][1], merges[n - N][2]}
  /\ UNCHANGED <<w, todo, cl, merges, k, phase>>

Next == Join \/ Cut \/ Open
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

(* P17 as an action property: every merge joins a nearest pair. *)
NearestPair == [][merges' # merges =>
                    LET m == merges'[Len(merges')]
                    IN MergeError(w, cl, m[1], m[2], m[3], m[4]) = ""]_vars
Ascending == \A i \in 1..(Len(merges) - 1) : merges[i][3] <= merges[i + 1][3]
AllJoined == phase = "cut" => Len(merges) = N - 1 /\ cl = {[id |-> 2 * N - 1, pts |-> 1..N]}

(* P18 *)
RECURSIVE Below(_)
Below(x) == IF x <= N THEN {x} ELSE Below(merges[x - N][1]) \cup Below(merges[x - N][2])
Labels == LET rank(x) == Cardinality({y \in nodes : y > x})
              node(i) == CHOOSE x \in nodes : i \in Below(x)
          IN [i \in 1..N |-> rank(node(i))]
CutCorrect == phase = "cut" /\ Cardinality(nodes) = k => PartitionError(N, After(N, merges, N - k), k, Labels) = ""
(* Judging the merges late (Linkage.tla) comes to the same result; with edges *)
(* in any order there are wrong hierarchies, too.                             *)
Judge(E(_, _, _, _, _, _)) ==
  /\ Ascending
  /\ \A t \in DOMAIN merges : LET m == merges[t] IN E(w, After(N, merges, t - 1), m[1], m[2], m[3], m[4]) = ""
DeferredSound == Len(merges) = N - 1 => (Judge(MergeError) <=> Judge(LateMergeError))
(* to be violated with Order = "any" *)
AlwaysRight == Len(merges) = N - 1 => Judge(LateMergeError)
Termination == <>(phase = "cut" /\ Cardinality(nodes) = k)
=============================================================================
