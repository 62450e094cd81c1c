-------------------------------- MODULE Prim --------------------------------
(* The construction of src/math/graph/spanning_tree.rs as a machine on all    *)
(* complete graphs with few weights. The candidate heap may hold edges to     *)
(* attached vertices (they are skipped), ties are broken in every way.        *)
EXTENDS Trees, TLC

CONSTANTS N, Weights,
          Cleanup   \* TRUE: stale candidates are skipped (the code)

VARIABLES w, current, attached, heap, edges, total
vars == <<w, current, attached, heap, edges, total>>

Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Matrix(f) == [u \in 1..N |-> [v \in 1..N |-> IF u = v THEN 0 ELSE IF u < v THEN f[<<u, v>>] ELSE f[<<v, u>>]]]
Grow(u, at) == {<<u, v, w[u][v]>> : v \in (1..N) \ (at \cup {u})}

Init ==
  /\ \E f \in [Pairs -> Weights] : w = Matrix(f)
  /\ current = N /\ attached = {N}
  /\ heap = {<<N, v, w[N][v]>> : v \in (1..N) \ {N}}
  /\ edges = <<>> /\ total = 0

Lightest == {e \in heap : \A o \in heap : e[3] <= o[3]}

Attach ==
  /\ attached # 1..N
  /\ \E e \in Lightest :
       IF Cleanup /\ e[2] \in attached THEN
         heap' = heap \ {e} /\ UNCHANGED <<w, current, attached, edges, total>>
       ELSE /\ edges' = Append(edges, e)
            /\ total' = total + e[3]
            /\ attached' = attached \cup {e[2]}
            /\ current' = e[2]
            /\ heap' = (heap \ {e}) \cup Grow(e[2], attached)
            /\ w' = w

Next == Attach
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

Done == attached = 1..N
(* By the definition: compare with every spanning tree. *)
AllEdges == {<<p[1], p[2], w[p[1]][p[2]]>> : p \in Pairs}
SpanningTrees == {E \in SUBSET AllEdges : Cardinality(E) = N - 1 /\ Spans(N, E)}
RECURSIVE WeightOf(_)
WeightOf(E) == IF E = {} THEN 0 ELSE LET e == CHOOSE e \in E : TRUE IN e[3] + WeightOf(E \ {e})

Correct == Done => /\ TreeError(N, w, edges, total) = ""
                   /\ \A T \in SpanningTrees : total <= WeightOf(T)
(* The criteria used for larger graphs agree with the definition on every   *)
(* spanning tree, minimal or not.                                             *)
CriterionSound ==
  edges = <<>> => LET best == CHOOSE b \in {WeightOf(T) : T \in SpanningTrees} : \A T \in SpanningTrees : b <= WeightOf(T)
                  IN \A T \in SpanningTrees :
                       LET s == CHOOSE f \in [1..(N - 1) -> T] : {f[i] : i \in 1..(N - 1)} = T
                       IN /\ Minimal(N, w, s) <=> WeightOf(T) = best
                          /\ MinimalByJoins(N, w, s) <=> WeightOf(T) = best
(* The tree so far is connected and has no cycle. *)
Growing == Cardinality(attached) = Len(edges) + 1 /\ Reach({N}, {edges[i] : i \in DOMAIN edges}) = attached
Termination == <>Done
=============================================================================
