---------------------------- MODULE TraceOrder ----------------------------
(* Recorded comparisons and sorts of swatches of the real code (P05).         *)
EXTENDS TraceBase, SwatchOrder

Names == <<"cmp", "partial", "less", "sorted", "unstable", "popped", "max", "min">>
Count(n) == IF Trace[n].outcome = "ok" THEN Len(Names) ELSE 1
Pct == [i \in DOMAIN In.sw |-> In.sw[i][1]]
N == Len(In.sw)
IsSortOf(out) ==
  /\ Len(out) = N
  /\ \A i \in 1..(N - 1) : out[i] <= out[i + 1]
  /\ \A i \in 1..N : Times(out[i], out) = Times(out[i], Pct)
Matrix(out, f(_, _)) == Len(out) = N /\ \A i \in 1..N : Len(out[i]) = N /\ \A j \in 1..N : out[i][j] = f(Pct[i], Pct[j])
Why(name) ==
  CASE name = "cmp"      -> IF Matrix(Out.cmp, LAMBDA a, b : Compares(a, b)) THEN "" ELSE "cmp is not the order of the percentages"
    [] name = "partial"  -> IF Matrix(Out.partial, LAMBDA a, b : Compares(a, b)) THEN "" ELSE "partial_cmp is not the order of the percentages"
    [] name = "less"     -> IF Matrix(Out.less, LAMBDA a, b : (IF a < b THEN 1 ELSE 0) + (IF a <= b THEN 2 ELSE 0)) THEN "" ELSE "< or <= is not the order of the percentages"
    [] name = "sorted"   -> IF IsSortOf(Out.sorted) THEN "" ELSE "sort does not sort by percentage"
    [] name = "unstable" -> IF IsSortOf(Out.unstable) THEN "" ELSE "sort_unstable does not sort by percentage"
    [] name = "popped"   -> IF IsSortOf([i \in 1..Len(Out.popped) |-> Out.popped[Len(Out.popped) + 1 - i]]) THEN "" ELSE "a heap does not return by percentage"
    [] name = "max" -> IF N = 0 \/ (\E i \in 1..N : Out.max = Pct[i] /\ \A j \in 1..N : Pct[j] <= Out.max) THEN "" ELSE "max"
    [] name = "min" -> IF N = 0 \/ (\E i \in 1..N : Out.min = Pct[i] /\ \A j \in 1..N : Pct[j] >= Out.min) THEN "" ELSE "min"
OInit == c \in DOMAIN Trace /\ pos = 0 /\ st = 0 /\ given = <<>> /\ seq = <<>>
Judge == Ok /\ pos >= 0 /\ pos < Len(Names) /\ Consume(Why(Names[pos + 1]), 0)
ONext == (Broken \/ Judge) /\ UNCHANGED <<given, seq>>
OSpec == OInit /\ [][ONext]_<<tvars, vars>>
Accepted == AllExplained(Count)
=============================================================================
