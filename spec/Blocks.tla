------------------------------- MODULE Blocks -------------------------------
(* Images far too large to be judged pixel by pixel: disjoint rectangles of   *)
(* one colour each, and noise in the rest of the image: pixel (x, y) has the  *)
(* colour noise[(x + slope * y) mod K]. When the conditions below hold, the   *)
(* density clusters of the pixels are exactly the components of the blocks    *)
(* (checked against Clustering.tla for all small images by BlockScan.tla).    *)
(* A block is <<x0, y0, width, height, colour>>.                              *)
EXTENDS Palette

LOCAL X == INSTANCE SequencesExt

Covers(b, x, y) == b[1] <= x /\ x < b[1] + b[3] /\ b[2] <= y /\ y < b[2] + b[4]
ColorAt(i, x, y) ==
  IF \E n \in DOMAIN i.blocks : Covers(i.blocks[n], x, y)
  THEN i.blocks[CHOOSE n \in DOMAIN i.blocks : Covers(i.blocks[n], x, y)][5]
  ELSE i.noise[((x + i.slope * y) % Len(i.noise)) + 1]

Size(b) == b[3] * b[4]
(* Distance between the nearest columns (rows) of two blocks: 0 if they share one. *)
Gap(s, n, t, m) == IF s > t + m - 1 THEN s - (t + m - 1) ELSE IF t > s + n - 1 THEN t - (s + n - 1) ELSE 0
Disjoint(a, b) == a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1] \/ a[2] + a[4] <= b[2] \/ b[2] + b[4] <= a[2]
Placed(i) ==
  /\ \A n \in DOMAIN i.blocks : LET b == i.blocks[n]
                                IN /\ b[3] > 0 /\ b[4] > 0 /\ b[1] >= 0 /\ b[2] >= 0
                                   /\ b[1] + b[3] <= i.w /\ b[2] + b[4] <= i.h
  /\ \A m, n \in DOMAIN i.blocks : m < n => Disjoint(i.blocks[m], i.blocks[n])
Area(i) == X!FoldLeft(LAMBDA sum, b : sum + Size(b), 0, i.blocks)

Sure(d) == d <= Radius2 - Margin
Never(d) == d > Radius2 + Margin
(* Pixels of a block that are surely near its corner; all its pixels have as many. *)
Dense(i, b) ==
  LET rx == Reach(i.w)
      ry == Reach(i.h)
      \* rows and columns: all of a row of short blocks, or enough of them
      near == {o \in (0..Min2P(b[3] - 1, rx)) \X (0..Min2P(b[4] - 1, ry)) : Sure(Plus(Shift(o[1], i.w), Shift(o[2], i.h)))}
  IN Cardinality(near) >= MinPts
Linked(i, b) == (b[3] = 1 \/ Sure(Shift(1, i.w))) /\ (b[4] = 1 \/ Sure(Shift(1, i.h)))

Distance(i, col, a, b) ==
  Plus(col[a[5]][b[5]], Plus(Shift(Gap(a[1], a[3], b[1], b[3]), i.w), Shift(Gap(a[2], a[4], b[2], b[4]), i.h)))

(* Noise pixels of one colour within reach of one another. *)
Thin(i) ==
  LET rx == Reach(i.w)
      ry == Reach(i.h)
      k == Len(i.noise)
      rows == {dy \in (-ry)..ry : ~Never(Shift(dy, i.h))}
      cols == {dx \in (-rx)..rx : ~Never(Shift(dx, i.w))}
      same == {o \in cols \X rows : (o[1] + i.slope * o[2]) % k = 0 /\ ~Never(Plus(Shift(o[1], i.w), Shift(o[2], i.h)))}
  IN Cardinality(same) < MinPts

(* Why the clusters of the image cannot be told from its blocks. *)
Trouble(i, col, skip) ==
  IF ~Placed(i) THEN "blocks overlap or leave the image"
  ELSE IF Len(i.noise) = 0 /\ Area(i) # i.w * i.h THEN "blocks do not fill the image"
  ELSE IF skip # "dense" /\ \E n \in DOMAIN i.blocks : ~Dense(i, i.blocks[n]) THEN "a block is not dense"
  ELSE IF skip # "linked" /\ \E n \in DOMAIN i.blocks : ~Linked(i, i.blocks[n]) THEN "a block is not connected"
  ELSE IF skip # "apart" /\ \E m, n \in DOMAIN i.blocks :
            m < n /\ LET d == Distance(i, col, i.blocks[m], i.blocks[n]) IN ~Sure(d) /\ ~Never(d) THEN "blocks are undecided"
  ELSE IF Len(i.noise) = 0 THEN ""
  ELSE IF \E m, n \in DOMAIN i.noise : m < n /\ ~Never(col[i.noise[m]][i.noise[n]]) THEN "noise colours are near"
  ELSE IF skip # "foreign" /\ \E m \in DOMAIN i.noise : \E n \in DOMAIN i.blocks : ~Never(col[i.noise[m]][i.blocks[n][5]])
       THEN "noise is near a block"
  ELSE IF skip # "thin" /\ ~Thin(i) THEN "noise is dense"
  ELSE ""

(* Number of the component of every block (number of its first block). *)
Components(i, col) ==
  LET pairs == X!SetToSeq({p \in (DOMAIN i.blocks) \X (DOMAIN i.blocks) :
                             p[1] < p[2] /\ Sure(Distance(i, col, i.blocks[p[1]], i.blocks[p[2]]))})
      join(of, p) == LET a == Min2P(of[p[1]], of[p[2]])
                         b == IF of[p[1]] = a THEN of[p[2]] ELSE of[p[1]]
                     IN [n \in DOMAIN of |-> IF of[n] = b THEN a ELSE of[n]]
  IN X!FoldLeft(join, [n \in DOMAIN i.blocks |-> n], pairs)

(* Sums of the columns and rows of the pixels of a block, counted from an origin. *)
SumX(b, o) == b[4] * (b[3] * (b[1] - o) + (b[3] * (b[3] - 1)) \div 2)
SumY(b, o) == b[3] * (b[4] * (b[2] - o) + (b[4] * (b[4] - 1)) \div 2)
=============================================================================
