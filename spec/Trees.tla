------------------------------- MODULE Trees -------------------------------
(* Spanning trees of complete weighted graphs (P16). Vertices are 1..n, w is  *)
(* a symmetric matrix, an edge is a tuple <<u, v, weight>>.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL X == INSTANCE SequencesExt

(* Vertices joined to v by a set E of edges. *)
RECURSIVE Reach(_, _)
Reach(V, E) ==
  LET next == V \cup {e[2] : e \in {e \in E : e[1] \in V}} \cup {e[1] : e \in {e \in E : e[2] \in V}}
  IN IF next = V THEN V ELSE Reach(next, E)

Spans(n, E) == n = 0 \/ Reach({1}, E) = 1..n

RECURSIVE SumWeights(_)
SumWeights(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + SumWeights(Tail(s))

(* The shape: n - 1 edges of the graph that connect all the vertices (and so  *)
(* have no cycle).                                                            *)
ShapeError(n, w, edges) ==
  IF Len(edges) # (IF n = 0 THEN 0 ELSE n - 1) THEN "not one edge less than vertices"
  ELSE IF \E i \in DOMAIN edges : edges[i][1] \notin 1..n \/ edges[i][2] \notin 1..n \/ edges[i][1] = edges[i][2]
       THEN "not an edge of the graph"
  ELSE IF \E i \in DOMAIN edges : edges[i][3] # w[edges[i][1]][edges[i][2]] THEN "not the weight of the edge in the graph"
  ELSE IF ~Spans(n, {edges[i] : i \in DOMAIN edges}) THEN "does not connect all vertices"
  ELSE ""

(* A spanning tree is minimal if and only if no edge of the graph is lighter  *)
(* than an edge of the tree that it could replace (checked against the        *)
(* definition by Prim.tla): the ends of a lighter edge are already joined by  *)
(* tree edges that are not heavier.                                           *)
Minimal(n, w, edges) ==
  LET E == {edges[i] : i \in DOMAIN edges}
  IN \A u, v \in 1..n : u < v => v \in Reach({u}, {e \in E : e[3] <= w[u][v]})

(* The same for large graphs: the edges of the tree join all the vertices in  *)
(* order of their weights, and every time no edge of the graph between the    *)
(* two joined parts is lighter. Looks at every edge of the graph once.        *)
MinimalByJoins(n, w, edges) ==
  LET sorted == SortSeq(edges, LAMBDA d, e : d[3] < e[3])
      join(acc, e) ==
        IF ~acc.good THEN acc
        ELSE LET a == acc.of[e[1]]
                 b == acc.of[e[2]]
                 A == {v \in 1..n : acc.of[v] = a}
                 B == {v \in 1..n : acc.of[v] = b}
             IN [good |-> \A u \in A, v \in B : w[u][v] >= e[3],
                 of |-> TLCEval([v \in 1..n |-> IF acc.of[v] = b THEN a ELSE acc.of[v]])]
  IN X!FoldLeft(join, [good |-> TRUE, of |-> [v \in 1..n |-> v]], sorted).good
Few == 16

TreeError(n, w, edges, total) ==
  IF ShapeError(n, w, edges) # "" THEN ShapeError(n, w, edges)
  ELSE IF ~(IF n <= Few THEN Minimal(n, w, edges) ELSE MinimalByJoins(n, w, edges)) THEN "another spanning tree has a smaller total weight"
  ELSE IF total # SumWeights(edges) THEN "the reported weight is not the sum of the edges"
  ELSE ""
=============================================================================
