------------------------------- MODULE Dbscan -------------------------------
(* The algorithm of src/math/clustering/dbscan as a machine, on arbitrary     *)
(* neighbourhood graphs (every metric space gives one). Labels and queue are  *)
(* those of the code; the order in which a search reports neighbours is free. *)
EXTENDS Clustering, TLC

CONSTANTS N,         \* number of points
          MinPts,    \* set of values of the minimum number of points
          Absorb,    \* TRUE: outliers met by an expanding cluster join it (the code)
          Border,    \* TRUE: non-core points do not expand (the code)
          Remark     \* TRUE: a new cluster marks all its neighbours, also assigned ones (the code)

Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}

VARIABLES edges, minpts,      \* the input
          label,              \* "undef", "marked", "out" or a cluster number
          index,              \* scan position
          queue, cid, phase
vars == <<edges, minpts, label, index, queue, cid, phase>>
input == <<edges, minpts>>

Near(i) == {j \in 1..N : i = j \/ <<i, j>> \in edges \/ <<j, i>> \in edges}

Graph == [i \in 1..N |-> Near(i)]

Undef == -1
Marked == -2
Outlier == -3

Init ==
  /\ edges \in SUBSET Pairs
  /\ minpts \in MinPts
  /\ label = [i \in 1..N |-> Undef]
  /\ index = 1 /\ queue = <<>> /\ cid = 0 /\ phase = "scan"

(* Two orders of reporting neighbours are enough to make order matter. *)
Orders(S) ==
  LET up == CHOOSE f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => f[a] < f[b]
      down == [a \in 1..Cardinality(S) |-> up[Cardinality(S) + 1 - a]]
  IN {up, down}

Skip == /\ phase = "scan" /\ index <= N /\ label[index] # Undef
        /\ index' = index + 1
        /\ UNCHANGED <<input, label, queue, cid, phase>>

Noise == /\ phase = "scan" /\ index <= N /\ label[index] = Undef
         /\ Cardinality(Near(index)) < minpts
         /\ label' = [label EXCEPT ![index] = Outlier]
         /\ index' = index + 1
         /\ UNCHANGED <<input, queue, cid, phase>>

Seed == /\ phase = "scan" /\ index <= N /\ label[index] = Undef
        /\ Cardinality(Near(index)) >= minpts
        /\ label' = [i \in 1..N |-> IF i \in Near(index) /\ (Remark \/ label[i] < 0) THEN Marked ELSE label[i]]
        /\ queue' \in Orders(Near(index))
        /\ phase' = "expand"
        /\ UNCHANGED <<input, index, cid>>

Pop == /\ phase = "expand" /\ queue # <<>>
       /\ LET i == Head(queue)
              rest == Tail(queue)
              new == {j \in Near(i) : label[j] = Undef \/ (label[j] = Outlier /\ j # i)}
              expands == (Cardinality(Near(i)) >= minpts) \/ ~Border
          IN IF label[i] >= 0 THEN queue' = rest /\ UNCHANGED label
             ELSE IF label[i] = Outlier THEN
                    /\ label' = IF Absorb THEN [label EXCEPT ![i] = cid] ELSE label
                    /\ queue' = rest
             ELSE /\ label' = [j \in 1..N |-> IF j = i THEN cid
                                             ELSE IF expands /\ label[j] = Undef /\ j \in new THEN Marked ELSE label[j]]
                  /\ IF expands THEN \E o \in Orders(new) : queue' = rest \o o ELSE queue' = rest
       /\ UNCHANGED <<input, index, cid, phase>>

Close == /\ phase = "expand" /\ queue = <<>>
         /\ cid' = cid + 1 /\ phase' = "scan" /\ index' = index + 1
         /\ UNCHANGED <<input, label, queue>>

Next == Skip \/ Noise \/ Seed \/ Pop \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "scan" /\ index > N
Clusters == [k \in 1..cid |-> {i \in 1..N : label[i] = k - 1}]
Outliers == {i \in 1..N : label[i] = Outlier}

Valid == Done => ClusteringError(N, Graph, minpts, Clusters, Outliers) = ""
(* Nothing stays undefined or marked: the unreachable!() of the code is unreachable. *)
Total == Done => \A i \in 1..N : label[i] = Outlier \/ label[i] \in 0..(cid - 1)
(* While it expands, a cluster only ever contains points that its cores reach. *)
Grounded == \A i \in 1..N : label[i] >= 0 => Near(i) \cap Cores(N, Graph, minpts) # {}
Termination == <>Done
=============================================================================
