------------------------------ MODULE GenGraphs ------------------------------
(* Enumerates all complete graphs with up to N vertices and few weights.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS N, Weights

Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Matrix(n, f) == [u \in 1..n |-> [v \in 1..n |-> IF u = v THEN 0 ELSE IF u < v THEN f[<<u, v>>] ELSE f[<<v, u>>]]]

ASSUME ndJsonSerialize(IOEnv.OUT,
         SetToSeq(UNION {{[w |-> Matrix(n, f)] : f \in [Pairs(n) -> Weights]} : n \in 0..N}))

VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
