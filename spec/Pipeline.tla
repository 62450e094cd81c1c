------------------------------ MODULE Pipeline ------------------------------
(* The extraction of a palette as a machine, on abstract colours: pixels are  *)
(* collected row by row, clustered by density (any clustering that            *)
(* Clustering.tla admits: border pixels may go either way), summarised        *)
(* cluster by cluster, and the swatches are sorted by their share.            *)
(* Properties P01, P02, P04, P05 and P07 of a palette.                        *)
EXTENDS Palette, Clustering, TLC
CONSTANTS Sizes, Colours,
          Ordered,     \* TRUE: the k-th summary and the k-th count are of the same cluster
          RowMajor,    \* TRUE: pixel i is at column i mod width, row i div width
          KeepNoise    \* TRUE: sparse pixels are summarised as a cluster, too
VARIABLES img, pixels, clusters, order, palette, stage
vars == <<img, pixels, clusters, order, palette, stage>>

SizesS == {<<0, 0>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<1, 5>>, <<5, 1>>, <<2, 2>>}
SizesL == SizesS \cup {<<3, 2>>, <<2, 3>>, <<7, 1>>, <<1, 7>>}
SizesN == {<<3, 2>>}
Feature == <<<<0, 0, 0>>, <<1, 0, 0>>, <<3, 1, 0>>>>
N == img.w * img.h
Init ==
  /\ img \in UNION {[w : {s[1]}, h : {s[2]}, px : [1..(s[1] * s[2]) -> 1..Colours]] : s \in Sizes}
  /\ pixels = <<>> /\ clusters = <<>> /\ order = <<>> /\ palette = <<>> /\ stage = "scan"

Collect ==
  /\ stage = "scan" /\ Len(pixels) < N
  /\ LET p == Len(pixels) + 1
     IN pixels' = Append(pixels, [f |-> Feature[img.px[p]],
                                  x |-> IF RowMajor THEN ColumnOf(p, img.w) ELSE (p - 1) \div img.h,
                                  y |-> IF RowMajor THEN RowOf(p, img.w) ELSE (p - 1) % img.h])
  /\ UNCHANGED <<img, clusters, order, palette, stage>>

Near(i, j) == ColorDistance(pixels[i].f, pixels[j].f) + Shift(pixels[i].x - pixels[j].x, img.w)
              + Shift(pixels[i].y - pixels[j].y, img.h) <= Radius2
NearOf == [i \in 1..N |-> {j \in 1..N : Near(i, j)}]
Permutations2(S) == {g \in [S -> S] : \A i, j \in S : g[i] = g[j] => i = j}
Group ==
  /\ stage = "scan" /\ Len(pixels) = N
  /\ \E near \in {NearOf} : \E core \in {Cores(N, near, MinPts)} :
     \E parts \in {{Flood({p}, core, near) : p \in core}} :
     \E border \in {{p \in (1..N) \ core : near[p] \cap core # {}}} :
     \E home \in [border -> parts] :
       /\ \A p \in border : near[p] \cap home[p] # {}
       /\ \E name \in {f \in [1..Cardinality(parts) -> parts] : \A part \in parts : \E k \in DOMAIN f : f[k] = part} :
          \E cs \in {[k \in DOMAIN name |-> name[k] \cup {p \in border : home[p] = name[k]}]} :
          \E noise \in {(1..N) \ (core \cup border)} :
            /\ Assert(ClusteringError(N, near, MinPts, cs, noise) = "", "not a clustering")
            /\ clusters' = IF KeepNoise /\ noise # {} THEN Append(cs, noise) ELSE cs
            /\ \E o \in (IF Ordered THEN {[i \in DOMAIN clusters' |-> i]} ELSE Permutations2(DOMAIN clusters')) : order' = o
  /\ stage' = "summarise"
  /\ UNCHANGED <<img, pixels, palette>>

RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN f[p] + Total(S \ {p}, f)
Summarise ==
  /\ stage = "summarise" /\ Len(palette) < Len(clusters)
  /\ LET k == Len(palette) + 1
         members == clusters[order[k]]   \* what the k-th summary describes
         n == Cardinality(members)
     IN palette' = Append(palette,
          [of |-> order[k],
           x |-> Total(members, [p \in members |-> pixels[p].x]) \div n,
           y |-> Total(members, [p \in members |-> pixels[p].y]) \div n,
           count |-> Cardinality(clusters[k])])
  /\ UNCHANGED <<img, pixels, clusters, order, stage>>
Swap ==  \* one step of sorting
  /\ stage = "summarise" /\ Len(palette) = Len(clusters)
  /\ \E i \in 1..(Len(palette) - 1) :
       /\ palette[i].count > palette[i + 1].count
       /\ palette' = [palette EXCEPT ![i] = palette[i + 1], ![i + 1] = palette[i]]
  /\ UNCHANGED <<img, pixels, clusters, order, stage>>
Return ==
  /\ stage = "summarise" /\ Len(palette) = Len(clusters)
  /\ \A i \in 1..(Len(palette) - 1) : palette[i].count <= palette[i + 1].count
  /\ stage' = "returned"
  /\ UNCHANGED <<img, pixels, clusters, order, palette>>
Next == Collect \/ Group \/ Summarise \/ Swap \/ Return
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

Done == stage = "returned"
Dense == {p \in 1..N : Cardinality({q \in 1..N :
            ColorDistance(Feature[img.px[p]], Feature[img.px[q]]) + Shift(ColumnOf(p, img.w) - ColumnOf(q, img.w), img.w)
            + Shift(RowOf(p, img.w) - RowOf(q, img.w), img.h) <= Radius2}) >= MinPts}
(* P01: a dense pixel in every described cluster, all dense pixels covered once *)
OnePerCluster == Done =>
  /\ \A i, j \in DOMAIN palette : i # j => palette[i].of # palette[j].of
  /\ \A p \in Dense : Cardinality({i \in DOMAIN palette : p \in clusters[palette[i].of]}) = 1
  /\ \A i \in DOMAIN palette : clusters[palette[i].of] \cap Dense # {}
OwnShare == Done => \A i \in DOMAIN palette : palette[i].count = Cardinality(clusters[palette[i].of])
WellFormed == Done =>
  /\ \A i \in DOMAIN palette : palette[i].x \in 0..(img.w - 1) /\ palette[i].y \in 0..(img.h - 1) /\ palette[i].count > 0
  /\ Total(DOMAIN palette, [i \in DOMAIN palette |-> palette[i].count]) <= N
OwnPlace == Done => \A i \in DOMAIN palette :
  LET m == clusters[palette[i].of]
  IN /\ palette[i].x = Total(m, [p \in m |-> ColumnOf(p, img.w)]) \div Cardinality(m)
     /\ palette[i].y = Total(m, [p \in m |-> RowOf(p, img.w)]) \div Cardinality(m)
Ascending == Done => \A i \in 1..(Len(palette) - 1) : palette[i].count <= palette[i + 1].count
(* sorting only moves swatches *)
SameSwatches == [][stage = "summarise" /\ Len(palette) = Len(clusters) =>
  \A s \in {palette[i] : i \in DOMAIN palette} : \E j \in DOMAIN palette' : palette'[j] = s]_vars
Returns == <>Done
=============================================================================
