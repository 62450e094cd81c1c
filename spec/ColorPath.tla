----------------------------- MODULE ColorPath -----------------------------
(* The conversion of one colour as a machine: one action per conversion, from *)
(* an sRGB colour to L*a*b* and back, or from an arbitrary L*a*b* value to    *)
(* sRGB. Explored for all colours of Levels^3 and all values of the lattice.  *)
EXTENDS Color, TLC
CONSTANTS Levels,      \* channel values
          LabStep,     \* lattice of L*a*b* start values: step in whole units, 0 = none
          Limit        \* TRUE: light is limited before it is encoded
VARIABLES start, stage, val
vars == <<start, stage, val>>

Lattice == IF LabStep = 0 THEN {}
           ELSE {<<l * 100000, a * 100000, b * 100000>> :
                  l \in {x \in 0..100 : x % LabStep = 0},
                  a \in {x - 128 : x \in {y \in 0..255 : y % LabStep = 0}},
                  b \in {x - 128 : x \in {y \in 0..255 : y % LabStep = 0}}}
Init == \/ \E r, g, b \in Levels : start = <<r, g, b>> /\ stage = "rgb" /\ val = start
        \/ \E lab \in Lattice : start = lab /\ stage = "given" /\ val = start
Step(from, to, f) == stage = from /\ stage' = to /\ val' = f /\ UNCHANGED start
Linearise == Step("rgb", "light", LightOf(val))
Mix       == Step("light", "xyz", XyzOf(val))
Perceive  == Step("xyz", "lab", LabOf(val))
Unmix     == Step("lab", "xyz2", XyzOfLab(val))
Project   == Step("given", "xyz3", XyzOfLab(val))
Darken    == Step("xyz2", "light2", LightOfXyz(val))
Shade     == Step("xyz3", "light3", LightOfXyz(val))
Code      == Step("light2", "rgb2", RgbOfLight(val))
Fit       == Step("light3", "rgb3",
               IF Limit THEN RgbOfLight(val)
               ELSE [i \in 1..3 |-> IF val[i] < -700 THEN -1 ELSE IF val[i] > ONE + 700 THEN 256 ELSE Encode(val[i])])
Next == Linearise \/ Mix \/ Perceive \/ Unmix \/ Project \/ Darken \/ Shade \/ Code \/ Fit
Spec == Init /\ [][Next]_vars

In3(v, lo, hi) == \A i \in 1..3 : v[i] \in lo[i]..hi[i]
Ranges ==
  CASE stage \in {"light"} -> In3(val, <<0, 0, 0>>, <<ONE, ONE, ONE>>)
    [] stage \in {"xyz", "xyz2", "xyz3"} -> In3(val, <<0, 0, 0>>, XyzMax)
    [] stage \in {"lab", "given"} -> In3(val, <<0, -12800000, -12800000>>, <<10000000, 12700000, 12700000>>)
    [] stage \in {"rgb", "rgb2", "rgb3"} -> In3(val, <<0, 0, 0>>, <<255, 255, 255>>)
    [] OTHER -> TRUE
(* The way there and back leads to the same colour; every other colour whose   *)
(* channels differ is excluded even with the tolerance the traces are judged by.*)
RoundTrip == stage = "rgb2" => val = start
Sharp == stage = "lab" =>
  /\ Shows(val, start, 60)
  /\ \A i \in 1..3 : \A d \in {-1, 1} :
       start[i] + d \in 0..255 => ~Shows(val, [start EXCEPT ![i] = @ + d], 60)
Lightness(rgb) == LabOf(XyzOf(LightOf(rgb)))[1]
Monotone == stage = "lab" =>
  \A i \in 1..3 : start[i] < 255 => Lightness([start EXCEPT ![i] = @ + 1]) >= val[1]
Neutral == (stage = "lab" /\ start[1] = start[2] /\ start[2] = start[3]) =>
  AbsV(val[2]) <= 3000 /\ AbsV(val[3]) <= 3000      \* greys have (almost) no chroma
Primaries ==  \* published values of the sRGB primaries, to 0.04
  stage = "lab" =>
    LET is(rgb, lab) == start = rgb => \A i \in 1..3 : AbsV(val[i] - lab[i]) <= 4000
    IN /\ is(<<0, 0, 0>>, <<0, 0, 0>>) /\ is(<<255, 255, 255>>, <<10000000, 0, 0>>)
       /\ is(<<255, 0, 0>>, <<5324000, 8009000, 6720000>>)
       /\ is(<<0, 255, 0>>, <<8773500, -8618500, 8318000>>)
       /\ is(<<0, 0, 255>>, <<3230000, 7919000, -10786000>>)
       /\ is(<<255, 255, 0>>, <<9714000, -2155000, 9448000>>)
       /\ is(<<128, 128, 128>>, <<5358500, 0, 0>>) /\ is(<<64, 64, 64>>, <<2709300, 0, 0>>)
Table == \A n \in 0..509 : Half[n] < Half[n + 1]
Ends == Half[0] = 0 /\ Half[510] \in (ONE - 5)..ONE
Inverses == \A k \in 0..255 : Encode(Decode(k)) = k
ASSUME Table /\ Ends /\ (LinearLimit = 404500 => Inverses)
Termination == <>(stage \in {"rgb2", "rgb3"})
=============================================================================
