------------------------------ MODULE Palette ------------------------------
(* From an image to its palette. Pixels are numbered row by row from 1; the   *)
(* image gives the colour number of every pixel. A pixel is described by its  *)
(* colour feature and its position divided by the size of the image, all in   *)
(* units of 1 / Unit. A difference is near when its squared length is at most *)
(* Radius2, and undecided within Margin of it (fixed point rounding).         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Unit, Radius2, Margin, MinPts

LOCAL X == INSTANCE SequencesExt
Min2P(a, b) == IF a <= b THEN a ELSE b
AbsD(v) == IF v < 0 THEN -v ELSE v
ColumnOf(p, w) == (p - 1) % w
RowOf(p, w) == (p - 1) \div w

Far == Radius2 + Margin + 1
(* Squared length of a feature difference, limited to Far (32 bit). *)
Limit2(d) == IF d * d > Radius2 + Margin THEN Far ELSE d * d
Plus(a, b) == IF a + b > Far THEN Far ELSE a + b
ColorDistance(f, g) ==
  LET lim == 30000   \* differences beyond are far for every Radius2 used
      d(i) == LET v == AbsD(f[i] - g[i]) IN IF v > lim THEN Far ELSE Limit2(v)
  IN Plus(Plus(d(1), d(2)), d(3))
(* The offsets at which pixels can be near, with their squared length. *)
Shift(d, size) ==
  IF Unit > 390000 /\ 13 * AbsD(d) > size THEN Far   \* the product would not fit 32 bits
  ELSE LET v == (Unit \div size) * AbsD(d) + ((Unit % size) * AbsD(d)) \div size   \* Unit * d / size
       IN IF v > 30000 THEN Far ELSE Limit2(v)
Reach(size) == LET s == {d \in 0..(size - 1) : Shift(d, size) < Far} IN CHOOSE d \in s : \A e \in s : e <= d
Offsets(w, h) ==
  LET rx == Reach(w) ry == Reach(h)
      all == {o \in ((-rx)..rx) \X ((-ry)..ry) : Plus(Shift(o[1], w), Shift(o[2], h)) < Far}
  IN X!SetToSeq({<<o[1], o[2], Plus(Shift(o[1], w), Shift(o[2], h))>> : o \in all})

(* Everything that is looked up for one image. *)
ColorTable(features) == [i \in DOMAIN features |-> [j \in DOMAIN features |-> ColorDistance(features[i], features[j])]]
Tables(w, h, features) == [off |-> Offsets(w, h), col |-> ColorTable(features)]

(* Numbers of the offsets o at which pixel p has a neighbour; q is p + o.      *)
Inside(o, p, w, h) == /\ ColumnOf(p, w) + o[1] \in 0..(w - 1)
                      /\ RowOf(p, w) + o[2] \in 0..(h - 1)
At(o, p, w) == p + o[1] + o[2] * w
Apart(tab, px, p, q, o) == tab.col[px[p]][px[q]] + o[3]
(* The pixels that may be near p / that certainly are. *)
Possible(tab, px, p, w, h) ==
  {k \in 1..Len(tab.off) : LET o == tab.off[k] IN Inside(o, p, w, h) /\ Apart(tab, px, p, At(o, p, w), o) <= Radius2 + Margin}
Certain(tab, px, p, w, P) ==
  {k \in P : LET o == tab.off[k] IN Apart(tab, px, p, At(o, p, w), o) <= Radius2 - Margin}

(* A labelling lab of the pixels (label of dense pixels, 0 otherwise), with a  *)
(* parent up and a level lev for every dense pixel, is a witness for the       *)
(* density clusters of the image if every pixel passes this local test. The    *)
(* result is <<error, labels it surely has, labels it may have>>.              *)
Local(tab, px, w, h, lab, up, lev, p) ==
  LET P == Possible(tab, px, p, w, h)
      D == Certain(tab, px, p, w, P)
      Q(k) == At(tab.off[k], p, w)
      sure == {lab[Q(k)] : k \in D} \ {0}
      may  == {lab[Q(k)] : k \in P} \ {0}
  IN IF lab[p] = 0
     THEN <<IF Cardinality(P) >= MinPts THEN "density of a pixel is undecided" ELSE "", sure, may>>
     ELSE <<IF Cardinality(D) < MinPts THEN "density of a pixel is undecided"
            ELSE IF may # {lab[p]} THEN "link of dense pixels is undecided"
            ELSE IF up[p] = 0 THEN IF lev[p] = 0 THEN "" ELSE "root with a level"
            ELSE IF ~\E k \in D : Q(k) = up[p] /\ lab[up[p]] = lab[p] /\ lev[up[p]] + 1 = lev[p]
                 THEN "no way from a pixel to the root of its cluster" ELSE "",
          sure, may>>

(* Sums over pixels are kept in two limbs of 10^4. *)
Mean(high, low, n) ==  \* (high * 10^4 + low) / n
  (high \div n) * 10000 + ((high % n) * 10000 + low) \div n
=============================================================================
