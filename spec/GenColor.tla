------------------------------ MODULE GenColor ------------------------------
(* Writes the one-dimensional functions of Color.tla as tables, so that every *)
(* sRGB colour and a dense lattice of L*a*b* values can be searched for the   *)
(* largest deviation of the real code from the specification. The values     *)
(* found are judged in TraceColor.tla by Color.tla itself, not by the tables. *)
EXTENDS Color, TLC, Json, IOUtils

CONSTANTS Steps   \* table entries per unit

At(j) == j * (ONE \div Steps)                        \* j / Steps in units of 1e-7
ASSUME ndJsonSerialize(IOEnv.OUT, <<[
  half    |-> [n \in 1..511 |-> Half[n - 1]],
  forward |-> [j \in 1..(Steps + Steps \div 8) |-> Forward(At(j - 1))],
  inverse |-> [j \in 1..(2 * Steps) |-> Inverse(At(j - 1))],
  steps   |-> Steps, to |-> ToXyz, from |-> ToRgb, max |-> XyzMax,
  white   |-> White, back |-> WhiteInverse]>>)

VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
