----------------------------- MODULE TraceEdges -----------------------------
(* Recorded comparisons of weighted edges of the real code, and histories of a *)
(* queue of edges (P23). The state is the bag of the queued edges.             *)
EXTENDS TraceBase, EdgeOrder

N == Len(In.edges)
E(i) == In.edges[i]
Tables == <<"get", "cmp", "partial", "eq", "sorted", "max">>
Count(n) == IF Trace[n].outcome = "ok" THEN Len(Tables) + Len(Trace[n].in.ops) ELSE 1
Matrix(out, f(_, _)) == Len(out) = N /\ \A i \in 1..N : Len(out[i]) = N /\ \A j \in 1..N : out[i][j] = f(E(i), E(j))
Times(e, s) == Cardinality({i \in DOMAIN s : s[i] = e})
Why(name) ==
  CASE name = "get"     -> IF Out.get = In.edges THEN "" ELSE "an edge does not return its vertices and weight"
    [] name = "cmp"     -> IF Matrix(Out.cmp, Compare) THEN "" ELSE "cmp is not the reversed order of the weights"
    [] name = "partial" -> IF Matrix(Out.partial, Compare) THEN "" ELSE "partial_cmp is not the reversed order of the weights"
    [] name = "eq"      -> IF Matrix(Out.eq, LAMBDA a, b : IF Equal(a, b) THEN 1 ELSE 0) THEN "" ELSE "equality is not that of vertices and weight"
    [] name = "sorted"  -> IF /\ Len(Out.sorted) = N
                              /\ \A i \in 1..(N - 1) : Compare(Out.sorted[i], Out.sorted[i + 1]) <= 0
                              /\ \A i \in 1..N : Times(Out.sorted[i], Out.sorted) = Times(Out.sorted[i], In.edges)
                           THEN "" ELSE "sort does not sort from the heaviest to the lightest"
    [] name = "max"     -> IF N = 0 \/ Lightest(In.edges, Out.max) THEN "" ELSE "max is not a lightest edge"
EInit == c \in DOMAIN Trace /\ pos = 0 /\ st = <<>>
Look == Ok /\ pos >= 0 /\ pos < Len(Tables) /\ Consume(Why(Tables[pos + 1]), <<>>)
Step == pos - Len(Tables) + 1
Queue ==
  /\ Ok /\ pos >= Len(Tables) /\ Step <= Len(In.ops)
  /\ LET op == In.ops[Step] got == Out.hist[Step]
     IN IF op > 0 THEN Consume("", Append(st, E(op)))
        ELSE IF st = <<>> THEN Consume(IF got = <<>> THEN "" ELSE "an edge out of an empty queue", st)
        ELSE IF got = <<>> \/ ~Lightest(st, got) THEN Consume("the queue does not return a lightest edge", st)
        ELSE Consume("", Take(st, got))
ENext == Broken \/ Look \/ Queue
ESpec == EInit /\ [][ENext]_tvars
Accepted == AllExplained(Count)
=============================================================================
