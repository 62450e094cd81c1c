------------------------------ MODULE GenCalls ------------------------------
(* Enumerates all sequential histories of Depth calls of Requests different    *)
(* requests, for replay on the real code.                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Requests
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[calls |-> h] : h \in [1..Depth -> 1..Requests]}))
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
