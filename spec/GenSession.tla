----------------------------- MODULE GenSession -----------------------------
(* Enumerates all sequential histories of Depth calls over four images and    *)
(* both precisions, for replay on the real code.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth
Call == {<<i, p>> : i \in 1..4, p \in {32, 64}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[calls |-> h] : h \in [1..Depth -> Call]}))
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
