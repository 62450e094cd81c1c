------------------------------ MODULE Limits ------------------------------
(* Colours are limited to the range of their space when they are created       *)
(* (property P24). A number is <<units, steps>>: a multiple of 1e-6, and how   *)
(* many representable numbers it is away from that.                            *)
EXTENDS Integers, Sequences
Before(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2])
Limited(v, lo, hi) == IF Before(v, <<lo, 0>>) THEN <<lo, 0>> ELSE IF Before(<<hi, 0>>, v) THEN <<hi, 0>> ELSE v
Lab == << <<0, 100000000>>, <<-128000000, 127000000>>, <<-128000000, 127000000>> >>
Xyz == << <<0, 950456>>, <<0, 1000000>>, <<0, 1088644>> >>
=============================================================================
