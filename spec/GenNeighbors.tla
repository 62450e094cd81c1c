---------------------------- MODULE GenNeighbors ----------------------------
(* Enumerates small datasets (up to the order of their points) together with  *)
(* every query of a grid around them, for replay on the real code.            *)
EXTENDS Space, TLC, Json, IOUtils, SequencesExt

CONSTANTS Side, MaxN

Grid == [i \in 1..(Side * Side) |-> <<(i - 1) \div Side, (i - 1) % Side>>]
Datasets == UNION {Sorted(Grid, n) : n \in 0..MaxN}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[pts |-> d] : d \in Datasets}))

VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
