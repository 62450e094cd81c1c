---------------------------- MODULE TracePalette ----------------------------
(* Recorded palettes of the real code (P01 - P05, P07). The image is consumed *)
(* row by row: every pixel has to pass the local test of Palette.tla for the  *)
(* witness labelling of the case (a defect of the witness is an error of the  *)
(* check, never a verdict about the code), and the exact summary of every     *)
(* cluster is accumulated. Then the recorded swatches are judged. The clusters*)
(* of an image of blocks (Blocks.tla) are summarised in one step.             *)
EXTENDS TraceBase, Color, Blocks

LOCAL Y == INSTANCE SequencesExt

Needs(in) == in.judge \in {"P01", "P02", "P03", "P04"}
OfBlocks(in) == "blocks" \in DOMAIN in
Count(n) == IF Trace[n].outcome # "ok" THEN 1
            ELSE IF ~Needs(Trace[n].in) THEN 1
            ELSE IF OfBlocks(Trace[n].in) THEN 3 ELSE Trace[n].in.h + 3
Init == c \in DOMAIN Trace /\ pos = 0 /\ st = 0

(* ----- the image ----- *)
(* L/100, a/255, b/255 in units of 1/400000; L*a*b* is in units of 1e-5 *)
FeatureOf(lab) == <<lab[1] \div 25, (lab[2] * 4) \div 255, (lab[3] * 4) \div 255>>
LabOfColor(rgb) == LabOf(XyzOf(LightOf(rgb)))

(* Summary of a cluster: pixels that surely belong to it, in two limbs; and    *)
(* pixels that may belong to it or to another one. Next to the summaries, some *)
(* counts the pixels that surely belong to any cluster, and those that may.    *)
Empty == [n |-> 0, roots |-> 0, more |-> 0, sx |-> 0, sy |-> 0, ox |-> 0, oy |-> 0,
          x0 |-> 99999, x1 |-> -1, y0 |-> 99999, y1 |-> -1,
          high |-> <<0, 0, 0>>, low |-> <<0, 0, 0>>]
Shifted(lab, i) == IF i = 1 THEN lab[1] ELSE lab[i] + 12800000   \* not negative
Tally(s, lab, x, y, root) ==
  [s EXCEPT !.n = @ + 1, !.roots = @ + root, !.sx = @ + x, !.sy = @ + y,
            !.high = <<@[1] + Shifted(lab, 1) \div 10000, @[2] + Shifted(lab, 2) \div 10000, @[3] + Shifted(lab, 3) \div 10000>>,
            !.low  = <<@[1] + (Shifted(lab, 1) % 10000), @[2] + (Shifted(lab, 2) % 10000), @[3] + (Shifted(lab, 3) % 10000)>>]
Maybe(s, x, y) == [s EXCEPT !.more = @ + 1, !.x0 = Min2(@, x), !.x1 = Max2(@, x), !.y0 = Min2(@, y), !.y1 = Max2(@, y)]

MinOf3(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf3(S) == CHOOSE x \in S : \A y \in S : y <= x
BlockSumFrom(i, labs, of, k, ox, oy) ==
  Y!FoldLeft(
    LAMBDA s, n :
      IF of[n] # k THEN s
      ELSE LET b == i.blocks[n]
               lab == labs[b[5]]
           IN [s EXCEPT !.n = @ + Size(b), !.roots = 1, !.sx = @ + SumX(b, ox), !.sy = @ + SumY(b, oy),
                        !.high = [a \in 1..3 |-> @[a] + Size(b) * (Shifted(lab, a) \div 10000)],
                        !.low  = [a \in 1..3 |-> @[a] + Size(b) * (Shifted(lab, a) % 10000)]],
    [Empty EXCEPT !.ox = ox, !.oy = oy], [n \in DOMAIN i.blocks |-> n])
(* The summaries of all components of blocks. Coordinates are added up from   *)
(* the first column and row of the component, so that the sums stay small.    *)
BlockSum(i, labs, of, k) ==
  CHOOSE r \in {BlockSumFrom(i, labs, of, k, ox, oy) :
                  ox \in {MinOf3({i.blocks[n][1] : n \in {n \in DOMAIN of : of[n] = k}})},
                  oy \in {MinOf3({i.blocks[n][2] : n \in {n \in DOMAIN of : of[n] = k}})}} : TRUE
PrepareBlocks ==
  /\ Ok /\ Needs(In) /\ OfBlocks(In) /\ pos = 0
  /\ \E i \in {In} :
     \E labs \in {[k \in DOMAIN i.colors |-> LabOfColor(i.colors[k])]} :
     \E col \in {ColorTable([k \in DOMAIN labs |-> FeatureOf(labs[k])])} :
     \E why \in {Trouble(i, col, "")} :
       IF why # "" THEN Reject("witness: " \o why)
       ELSE \E of \in {Components(i, col)} :
            \E reps \in {Y!SetToSeq({of[n] : n \in DOMAIN of})} :
              Consume("", [labs |-> TLCEval(labs), sum |-> TLCEval([k \in DOMAIN reps |-> BlockSum(i, labs, of, reps[k])]),
                           some |-> <<Y!FoldLeft(LAMBDA n, b : n + Size(b), 0, i.blocks), 0>>])

Prepare ==
  /\ Ok /\ Needs(In) /\ ~OfBlocks(In) /\ pos = 0
  /\ \E labs \in {[k \in DOMAIN In.colors |-> LabOfColor(In.colors[k])]} :
     \E tab \in {Tables(In.w, In.h, [k \in DOMAIN labs |-> FeatureOf(labs[k])])} :
       Consume("", [labs |-> TLCEval(labs), tab |-> TLCEval(tab), sum |-> [k \in 1..In.wit.k |-> Empty], some |-> <<0, 0>>])

Row ==
  /\ Ok /\ Needs(In) /\ ~OfBlocks(In) /\ pos \in 1..In.h
  /\ \E px \in {In.px} : \E wit \in {In.wit} : \E w \in {In.w} : \E h \in {In.h} :
     \E tab \in {st.tab} : \E labs \in {st.labs} :
     \E res \in {Y!FoldLeft(
         LAMBDA acc, x :
           LET p == (pos - 1) * w + x
               e == Local(tab, px, w, h, wit.lab, wit.up, wit.lev, p)
               lab == labs[px[p]]
           IN IF acc.why # "" THEN acc
              ELSE IF e[1] # "" THEN [acc EXCEPT !.why = "witness: " \o e[1] \o " at " \o ToString(p)]
              ELSE IF wit.lab[p] > 0
              THEN [acc EXCEPT !.some[1] = @ + 1, !.sum[wit.lab[p]] = Tally(@, lab, x - 1, pos - 1, IF wit.up[p] = 0 THEN 1 ELSE 0)]
              ELSE IF e[3] = {} THEN acc
              ELSE IF Cardinality(e[3]) = 1 /\ e[2] = e[3]
              THEN [acc EXCEPT !.some[1] = @ + 1, !.sum[CHOOSE l \in e[2] : TRUE] = Tally(@, lab, x - 1, pos - 1, 0)]
              ELSE [acc EXCEPT !.some[IF e[2] = {} THEN 2 ELSE 1] = @ + 1,
                               !.sum = [k \in DOMAIN @ |-> IF k \in e[3] THEN Maybe(@[k], x - 1, pos - 1) ELSE @[k]]],
         [why |-> "", sum |-> st.sum, some |-> st.some], [x \in 1..w |-> x])} :
       Consume(res.why, [st EXCEPT !.sum = res.sum, !.some = res.some])

(* ----- the palette ----- *)
Single == In.prec = "f32"
Within(v, lo, hi) == lo <= v /\ v <= hi
CountFits(s, k) == Within(s.cnt, k.n, k.n + k.more)

(* The rounded down mean of a coordinate. *)
CoordFits(v, sum, o, k, v0, v1, size) ==
  LET mean == sum \div k.n
      lo == IF k.more = 0 THEN mean ELSE Min2(mean, (sum + k.more * v0) \div (k.n + k.more))
      hi == IF k.more = 0 THEN mean ELSE Max2(mean, (sum + k.more * v1) \div (k.n + k.more))
  IN v \in 0..(size - 1) /\ v - o \in lo..hi
PlaceFits(s, k) == CoordFits(s.p[1], k.sx, k.ox, k, k.x0, k.x1, In.w) /\ CoordFits(s.p[2], k.sy, k.oy, k, k.y0, k.y1, In.h)

MeanLab(k) == <<Mean(k.high[1], k.low[1], k.n), Mean(k.high[2], k.low[2], k.n) - 12800000,
                Mean(k.high[3], k.low[3], k.n) - 12800000>>
(* rounding of the mean: fixed point, and f32 sums of n values *)
LabTol(k, i) == 200 + (IF Single THEN (k.n * (IF i = 1 THEN 10000 ELSE 12800)) \div 16000 ELSE 0)
Corners(lab, k) ==
  {<<Clamp(lab[1] + d[1] * LabTol(k, 1), 0, 10000000), Clamp(lab[2] + d[2] * LabTol(k, 2), -12800000, 12700000),
     Clamp(lab[3] + d[3] * LabTol(k, 3), -12800000, 12700000)>> : d \in {-1, 1} \X {-1, 1} \X {-1, 1}}
LightTol == 100
LightOfMean(k) == {LightOfXyz(XyzOfLab(v)) : v \in Corners(MeanLab(k), k)}
(* Colour of a cluster without undecided pixels; others are not judged.        *)
ColorFits(s, k) ==
  \/ k.more > 0
  \/ \A i \in 1..3 : Low(s.c[i]) - LightTol <= k.light[i][2] /\ k.light[i][1] <= High(s.c[i]) + LightTol
(* The darkest and the lightest values that the mean of a cluster may have.    *)
Lit(k) ==
  IF k.more > 0 \/ k.n = 0 THEN k @@ [light |-> <<>>]
  ELSE CHOOSE r \in {k @@ [light |-> [i \in 1..3 |-> <<MinOf3({v[i] : v \in l}), MaxOf3({v[i] : v \in l})>>]] : l \in {LightOfMean(k)}} : TRUE
Summarise ==
  /\ Ok /\ Needs(In) /\ pos = (IF OfBlocks(In) THEN 1 ELSE In.h + 1)
  /\ Consume("", [sum |-> TLCEval([k \in DOMAIN st.sum |-> Lit(st.sum[k])]), some |-> st.some])

Swatches == DOMAIN Out
Clusters == DOMAIN st.sum
Roots1 == \A k \in Clusters : st.sum[k].roots = 1 /\ st.sum[k].n > 0

Resembles(s, k) == ColorFits(s, k) \/ PlaceFits(s, k) \/ CountFits(s, k)
OneEach ==
  IF Len(Out) # Len(st.sum)
  THEN ToString(Len(Out)) \o " swatches for " \o ToString(Len(st.sum)) \o " clusters"
  ELSE IF \E k \in Clusters : \A i \in Swatches : ~Resembles(Out[i], st.sum[k]) THEN "a cluster without swatch"
  ELSE IF \E i \in Swatches : \A k \in Clusters : ~Resembles(Out[i], st.sum[k]) THEN "a swatch without cluster"
  ELSE IF \E i, j \in Swatches : /\ i < j /\ Out[i] = Out[j]
                                 /\ Cardinality({k \in Clusters : ColorFits(Out[i], st.sum[k]) /\ PlaceFits(Out[i], st.sum[k])}) = 1
       THEN "two swatches for one cluster"
  ELSE ""

(* The cluster a swatch is about is identified by its other two components, as *)
(* far as these identify one.                                                  *)
Candidates(A(_), B(_)) ==
  LET both == {k \in Clusters : A(st.sum[k]) /\ B(st.sum[k])}
      a == {k \in Clusters : A(st.sum[k])}
      b == {k \in Clusters : B(st.sum[k])}
  IN IF both # {} THEN both ELSE IF Cardinality(a) = 1 THEN a ELSE b
Judged(i, A(_), B(_), C(_)) ==
  LET cand == Candidates(A, B) IN cand = {} \/ \E k \in cand : C(st.sum[k])
(* Position and colour describe clusters, but not the same one. *)
Torn(i) ==
  LET placed == {k \in Clusters : PlaceFits(Out[i], st.sum[k])}
      coloured == {k \in Clusters : ColorFits(Out[i], st.sum[k])}
  IN placed # {} /\ coloured # {} /\ placed \cap coloured = {}
Share ==
  IF \E i \in Swatches : Torn(i) THEN "a percentage of no cluster: position and colour describe different ones"
  ELSE IF \E i \in Swatches : Out[i].cnt = -1 THEN "a percentage is no share of the pixels"
  ELSE IF \E i \in Swatches : ~Judged(i, LAMBDA k : PlaceFits(Out[i], k), LAMBDA k : ColorFits(Out[i], k), LAMBDA k : CountFits(Out[i], k))
       THEN "a percentage is not the share of the described cluster"
  ELSE IF ~Within(Y!FoldLeft(LAMBDA n, s : n + s.cnt, 0, Out), st.some[1], st.some[1] + st.some[2])
       THEN "the percentages do not add up to the share of the clustered pixels"
  ELSE ""
Colour ==
  IF \E i \in Swatches : ~Judged(i, LAMBDA k : PlaceFits(Out[i], k), LAMBDA k : CountFits(Out[i], k), LAMBDA k : ColorFits(Out[i], k))
  THEN "a colour is not the mean colour of the cluster" ELSE ""
Place ==
  IF \E i \in Swatches : ~(Out[i].p[1] \in 0..(In.w - 1) /\ Out[i].p[2] \in 0..(In.h - 1)) THEN "a position outside of the image"
  ELSE IF \E i \in Swatches : ~Judged(i, LAMBDA k : ColorFits(Out[i], k), LAMBDA k : CountFits(Out[i], k), LAMBDA k : PlaceFits(Out[i], k))
       THEN "a position is not the mean position of the cluster" ELSE ""

Judge ==
  /\ Ok /\ Needs(In) /\ pos = (IF OfBlocks(In) THEN 2 ELSE In.h + 2)
  /\ Consume(IF ~Roots1 THEN "witness: not one root per cluster"
             ELSE CASE In.judge = "P01" -> OneEach
                    [] In.judge = "P02" -> Share
                    [] In.judge = "P03" -> Colour
                    [] In.judge = "P04" -> Place, 0)

Ascending == IF \A i \in 1..(Len(Out) - 1) : Out[i].ppb <= Out[i + 1].ppb THEN "" ELSE "percentages are not ascending"
WellFormed ==
  IF \E i \in Swatches : ~(Out[i].p[1] \in 0..(In.w - 1) /\ Out[i].p[2] \in 0..(In.h - 1)) THEN "a position outside of the image"
  ELSE IF \E i \in Swatches : ~Within(Out[i].ppb, 1, ONE * 100) THEN "a percentage outside of (0, 1]"
  ELSE IF Y!FoldLeft(LAMBDA sum, s : IF sum > ONE * 100 + 1000 THEN sum ELSE sum + s.ppb, 0, Out) > ONE * 100 + 1000 THEN "more than 100 percent"
  ELSE ""
Plain ==
  /\ Ok /\ ~Needs(In) /\ pos = 0
  /\ Consume(CASE In.judge = "P05" -> Ascending [] In.judge = "P07" -> WellFormed, 0)

Next == Broken \/ Prepare \/ PrepareBlocks \/ Row \/ Summarise \/ Judge \/ Plain
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
