----------------------------- MODULE TraceGraphs -----------------------------
(* Recorded spanning trees, hierarchies, partitions and union-find sessions   *)
(* of the real code (P16, P17, P18, P20).                                     *)
EXTENDS TraceBase, Linkage, Trees

UF == INSTANCE UnionFind

Count(n) == LET r == Trace[n] IN
  IF r.outcome # "ok" THEN 1
  ELSE CASE r.in.op = "mst" -> 1
         [] r.in.op = "hier" -> IF r.in.judge = "P17" THEN Len(r.out.merges) + 1 ELSE Len(r.out.parts)
         [] r.in.op = "uf" -> Len(r.in.ops)

Init ==
  /\ c \in DOMAIN Trace /\ pos = 0
  /\ st = CASE In.op = "mst"  -> {}
            [] In.op = "hier" -> Singles(Len(In.w))
            [] In.op = "uf"   -> UF!Start(In.n)

Tree ==
  /\ Ok /\ In.op = "mst" /\ pos = 0
  /\ Consume(TreeError(Len(In.w), In.w, Out.edges, Out.total), st)

(* ---- hierarchy: one merge per step --------------------------------------- *)
N == Len(In.w)
MergeStep ==
  /\ Ok /\ In.op = "hier" /\ In.judge = "P17" /\ pos >= 0 /\ pos < Len(Out.merges)
  /\ LET m == Out.merges[pos + 1]
         e == IF Cardinality(st) < 2 THEN "more merges than pairs of clusters"
              ELSE IF pos > 0 /\ Out.merges[pos][3] > m[3] THEN "the weights decrease"
              ELSE IF N <= Few THEN MergeError(In.w, st, m[1], m[2], m[3], m[4])
              ELSE LateMergeError(In.w, st, m[1], m[2], m[3], m[4])
     IN IF e = "" THEN Consume(e, Merge(st, m[1], m[2], N + pos + 1)) ELSE Reject(e)

Complete ==
  /\ Ok /\ In.op = "hier" /\ In.judge = "P17" /\ pos = Len(Out.merges)
  /\ Consume(IF Cardinality(st) > 1 THEN "not every point is below the last merge" ELSE "", st)

(* ---- partitions of it: k = n, n - 1, ..., 0; st: the clusters to cut into - *)
CutStep ==
  /\ Ok /\ In.op = "hier" /\ In.judge = "P18" /\ pos >= 0 /\ pos < Len(Out.parts)
  /\ LET k == N - pos
         m == Out.merges[pos + 1]
         e == PartitionError(N, st, k, Out.parts[k + 1])
     IN IF e # "" THEN Reject(e)
        ELSE IF k < 2 THEN Consume("", st)
        ELSE IF Len(Out.merges) # N - 1 \/ m[1] = m[2] \/ ~({m[1], m[2]} \subseteq Ids(st))
        THEN Reject("the merges are not a hierarchy")
        ELSE Consume("", Merge(st, m[1], m[2], N + pos + 1))

(* ---- union-find: one operation per step ---------------------------------- *)
FindStep ==
  /\ Ok /\ In.op = "uf" /\ pos >= 0 /\ pos < Len(In.ops) /\ Len(In.ops[pos + 1]) = 1
  /\ Consume(IF UF!FindOk(st, In.ops[pos + 1][1], Out[pos + 1]) THEN ""
             ELSE "find does not return the label of the set", st)
(* <<0, a, b, c, ...>> is a block of unions. *)
BlockStep ==
  /\ Ok /\ In.op = "uf" /\ pos >= 0 /\ pos < Len(In.ops) /\ In.ops[pos + 1][1] = 0
  /\ \E ls \in {Tail(In.ops[pos + 1])} :
       /\ Assert(UF!CanChain(st, In.n, ls), "the driver joins something else than current roots")
       /\ Consume(IF UF!ChainOk(st, ls, Out[pos + 1]) THEN ""
                  ELSE "union does not return the number of joined elements", UF!Chain(st, ls))
UnionStep ==
  /\ Ok /\ In.op = "uf" /\ pos >= 0 /\ pos < Len(In.ops) /\ Len(In.ops[pos + 1]) = 2
  /\ LET o == In.ops[pos + 1]
     IN /\ Assert(UF!CanUnite(st, o[1], o[2]), "the driver joins something else than two current roots")
        /\ Consume(IF UF!UnionOk(st, o[1], o[2], Out[pos + 1]) THEN ""
                   ELSE "union does not return the number of joined elements", UF!Unite(st, o[1], o[2]))

Next == Broken \/ Tree \/ MergeStep \/ Complete \/ CutStep \/ FindStep \/ UnionStep \/ BlockStep
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
