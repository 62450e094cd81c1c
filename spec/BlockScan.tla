------------------------------ MODULE BlockScan ------------------------------
(* Blocks.tla against the definition of the clusters, on all small images of  *)
(* up to two blocks and noise.                                                *)
EXTENDS Blocks, Clustering, TLC
CONSTANTS Sizes, Colours, Skip  \* Skip: a condition that is left out ("" = none)
VARIABLES img, stage
LOCAL X == INSTANCE SequencesExt
vars == <<img, stage>>

SizesS == {<<3, 1>>, <<5, 1>>, <<1, 4>>, <<3, 2>>}
SizesL == {<<3, 1>>, <<1, 5>>, <<6, 1>>, <<3, 2>>, <<2, 3>>, <<4, 2>>, <<3, 3>>}
Feature == <<<<0, 0, 0>>, <<1, 0, 0>>, <<3, 1, 0>>, <<9, 0, 9>>, <<0, 9, 9>>, <<2, 0, 0>>>>
Col == [f \in DOMAIN Feature |-> [g \in DOMAIN Feature |-> ColorDistance(Feature[f], Feature[g])]]
Rects(w, h) == {<<x, y, n, m, k>> : x \in 0..(w - 1), y \in 0..(h - 1), n \in 1..w, m \in 1..h, k \in 1..Colours}
Inside2(w, h) == {b \in Rects(w, h) : b[1] + b[3] <= w /\ b[2] + b[4] <= h}
Init ==
  /\ stage = "size"
  /\ img \in {[w |-> s[1], h |-> s[2], blocks |-> <<>>, noise |-> <<>>, slope |-> 0] : s \in Sizes}
AddNoise ==
  /\ stage = "size" /\ stage' = "blocks"
  /\ \E no \in {<<>>, <<4>>, <<4, 5>>, <<4, 6>>, <<4, 5, 3>>, <<4, 5, 6>>}, sl \in 0..2 : img' = [img EXCEPT !.noise = no, !.slope = sl]
AddBlock ==
  /\ stage = "blocks" /\ Len(img.blocks) < 2 /\ stage' = stage
  /\ \E b \in Inside2(img.w, img.h) :
       /\ \A n \in DOMAIN img.blocks : Disjoint(img.blocks[n], b)
       /\ img' = [img EXCEPT !.blocks = Append(@, b)]
Judge == stage = "blocks" /\ stage' = "done" /\ UNCHANGED img
Next == AddNoise \/ AddBlock \/ Judge
Spec == Init /\ [][Next]_vars

N == img.w * img.h
XOf(p) == ColumnOf(p, img.w)
YOf(p) == RowOf(p, img.w)
Pixel == [p \in 1..N |-> ColorAt(img, XOf(p), YOf(p))]
Good == Trouble(img, Col, Skip) = ""
(* Fixed-point undecided distances: every choice must lead to the same result. *)
NearIf(limit) == [p \in 1..N |-> {q \in 1..N :
   Plus(Col[Pixel[p]][Pixel[q]], Plus(Shift(XOf(p) - XOf(q), img.w), Shift(YOf(p) - YOf(q), img.h))) <= limit}]
PartsOfBlocks ==
  LET of == Components(img, Col)
  IN {{p \in 1..N : \E n \in DOMAIN of : of[n] = k /\ Covers(img.blocks[n], XOf(p), YOf(p))} : k \in {of[n] : n \in DOMAIN of}}
PartsOfPixels(near) == LET C == Cores(N, near, MinPts) IN {Flood({p}, C, near) : p \in C}
Decides == (stage = "done" /\ Good) =>
  \E parts \in {PartsOfBlocks} : \A limit \in {Radius2 - Margin, Radius2 + Margin} :
    \E near \in {NearIf(limit)} :
      /\ PartsOfPixels(near) = parts
      /\ \A p \in (1..N) \ (UNION parts) : near[p] \cap UNION parts = {}   \* noise is an outlier
Sums == (stage = "done" /\ Good) =>
  \A n \in DOMAIN img.blocks :
    LET b == img.blocks[n]
        S == {p \in 1..N : Covers(b, XOf(p), YOf(p))}
        sum(f(_)) == X!FoldLeft(LAMBDA a, p : a + f(p), 0, X!SetToSeq(S))
    IN /\ Size(b) = Cardinality(S)
       /\ \A o \in 0..1 : SumX(b, o) = sum(XOf) - o * Size(b) /\ SumY(b, o) = sum(YOf) - o * Size(b)
(* to be violated: some image with two clusters and noise is decided *)
NeverRich == ~(stage = "done" /\ Good /\ Cardinality(PartsOfBlocks) = 2 /\ Area(img) < N)
=============================================================================
