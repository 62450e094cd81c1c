------------------------------ MODULE Witness ------------------------------
(* The local test of Palette decides the density clusters: every labelling    *)
(* that passes it is the declarative clustering of Clustering.tla. All small  *)
(* images, all labellings.                                                    *)
EXTENDS Palette, Clustering, TLC
CONSTANTS Sizes, Colours, MaxLevel, Skip  \* Skip: a test that is left out ("" = none)
SizesS == {<<3, 1>>, <<1, 3>>, <<2, 2>>}
SizesL == {<<4, 1>>, <<2, 2>>}
Sizes4 == {<<4, 1>>}
VARIABLES img, wit
vars == <<img, wit>>

Feature == <<<<0, 0, 0>>, <<1, 0, 0>>, <<3, 1, 0>>>>
Img == UNION {[w : {s[1]}, h : {s[2]}, px : [1..(s[1] * s[2]) -> 1..Colours]] : s \in Sizes}
N(i) == i.w * i.h
Init == /\ img \in Img /\ wit = <<>>
(* label, parent and level of one pixel *)
Options(p) == {<<0, 0, 0>>} \cup {<<l, 0, 0>> : l \in 1..2}
              \cup (1..2) \X ((1..N(img)) \ {p}) \X (1..MaxLevel)
Choose ==
  /\ Len(wit) < N(img)
  /\ \E o \in Options(Len(wit) + 1) : wit' = Append(wit, o)
  /\ UNCHANGED img
Next == Choose
done == Len(wit) = N(img)
Spec == Init /\ [][Next]_vars

Tab == Tables(img.w, img.h, Feature)
Lab == [p \in 1..N(img) |-> wit[p][1]]
Up  == [p \in 1..N(img) |-> wit[p][2]]
Lev == [p \in 1..N(img) |-> wit[p][3]]
Labels == {Lab[p] : p \in 1..N(img)} \ {0}
Passes ==
  \E lab \in {Lab}, up \in {Up}, lev \in {Lev}, tab \in {Tab} :
    /\ \A p \in 1..N(img) : Local(tab, img.px, img.w, img.h, lab, up, lev, p)[1] \in {"", Skip}
    /\ Skip = "roots" \/ \A l \in Labels : Cardinality({p \in 1..N(img) : lab[p] = l /\ up[p] = 0}) = 1
Near == [p \in 1..N(img) |->
  {q \in 1..N(img) : ColorDistance(Feature[img.px[p]], Feature[img.px[q]])
     + Shift(ColumnOf(p, img.w) - ColumnOf(q, img.w), img.w)
     + Shift(RowOf(p, img.w) - RowOf(q, img.w), img.h) <= Radius2}]
C == Cores(N(img), Near, MinPts)
Decides == (done /\ Passes) =>
  /\ {p \in 1..N(img) : Lab[p] > 0} = C
  /\ \A p, q \in C : (Lab[p] = Lab[q]) = (q \in Flood({p}, C, Near))
(* to be violated: some labelling with two clusters passes *)
NeverTwo == ~(done /\ Passes /\ Labels = {1, 2})
=============================================================================
