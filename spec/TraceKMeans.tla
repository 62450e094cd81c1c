---------------------------- MODULE TraceKMeans ----------------------------
(* Recorded runs of the real k-means: the seeds, the state after 0, 1, 2, ... *)
(* iterations, and runs with a tolerance and a limit. The abstract state is   *)
(* the history of exact centroids (rationals), followed from iteration to     *)
(* iteration; logged centroids are compared with it.                          *)
EXTENDS TraceBase, KMeans

FP == IF "fp" \in DOMAIN In THEN In.fp ELSE 1024
Tolerance == IF In.prec = "f32" THEN 2 ELSE 1
N == Len(In.pts)
Fixed == N <= In.k \/ In.k = 0    \* no iterations take place
Judged(p) == In.judge = p

Count(n) == LET r == Trace[n] IN
  IF r.outcome # "ok" THEN 1
  ELSE IF r.in.judge = "P14" THEN 2
  ELSE IF r.in.judge = "P13" THEN Len(r.out.states)
  ELSE Len(r.out.states) + Len(r.out.runs)

Init == c \in DOMAIN Trace /\ pos = 0 /\ st = <<>>

(* Logged centroid (fixed point) against a rational one. *)
Same(logged, cent) == \A a \in 1..In.dim :
  /\ Abs(logged[a] \div FP - cent[1][a] \div cent[2]) <= 3   \* the products below fit 32 bits
  /\ Abs(logged[a] * cent[2] - cent[1][a] * FP) <= cent[2] * Tolerance
OnLattice(logged) == \A a \in 1..In.dim : logged[a] % FP = 0
ToLattice(logged) == [a \in 1..In.dim |-> logged[a] \div FP]

(* ---- P14: what the initializer returns, and where the iteration starts --- *)
Seeding ==
  /\ Ok /\ Judged("P14") /\ pos \in {0, 1}
  /\ LET logged == IF pos = 0 THEN Out.seeds ELSE Out.states[1].cents
         seeds == [j \in DOMAIN logged |-> ToLattice(logged[j])]
     IN Consume(IF \E j \in DOMAIN logged : ~OnLattice(logged[j]) THEN "an initial centroid is not a point of the dataset"
                ELSE LET e == SeedsError(In.pts, In.k, seeds)
                     IN IF e # "" THEN e
                        ELSE IF In.pp /\ In.k < N THEN SpreadError(In.pts, seeds) ELSE "", st)

(* ---- P13 and P15: the iteration ------------------------------------------ *)
Logged(m) == Out.states[m + 1]
Members(s) == [j \in DOMAIN s.members |-> Range(s.members[j])]

ShapeError(s) ==
  IF Len(s.members) # Len(s.cents) \/ Len(s.counts) # Len(s.cents) THEN "numbers of clusters differ"
  ELSE IF \E j \in DOMAIN s.cents : s.counts[j] # Len(s.members[j]) \/ ~NoRepeat(s.members[j])
       THEN "the count is not the number of points"
  ELSE ""

StartError(s) ==
  IF ShapeError(s) # "" THEN ShapeError(s)
  ELSE IF In.k = 0 THEN (IF Len(s.cents) = 0 THEN "" ELSE "clusters although k = 0")
  ELSE IF N <= In.k THEN
    IF Len(s.cents) # N \/ {Range(s.members[j]) : j \in DOMAIN s.members} # {{i} : i \in 1..N}
       THEN "not every point is a cluster of its own"
    ELSE IF \E j \in DOMAIN s.cents : ~Same(s.cents[j], <<In.pts[s.members[j][1]], 1>>) THEN "the centroid is not the point"
    ELSE ""
  ELSE IF Len(s.cents) # In.k THEN "not k clusters"
  ELSE IF \E j \in DOMAIN s.cents : ~OnLattice(s.cents[j]) \/ ToLattice(s.cents[j]) \notin Range(In.pts)
       THEN "an initial centroid is not a point of the dataset"
  ELSE ""

StepError(s, prev, next) ==
  IF ShapeError(s) # "" THEN ShapeError(s)
  ELSE IF AssignmentError(In.pts, prev, Members(s)) # "" THEN AssignmentError(In.pts, prev, Members(s))
  ELSE IF \E j \in DOMAIN next : ~Same(s.cents[j], next[j]) THEN
    LET j == CHOOSE j \in DOMAIN next : ~Same(s.cents[j], next[j])
    IN IF s.members[j] = <<>> THEN "the centroid of an empty cluster moved" ELSE "the centroid is not the mean of its points"
  ELSE ""

Start ==
  /\ Ok /\ ~Judged("P14") /\ pos = 0
  /\ LET s == Logged(0)
         e == StartError(s)
     IN IF e = "" \/ Judged("P13")
        THEN Consume(e, <<[j \in DOMAIN s.cents |-> <<ToLattice(s.cents[j]), 1>>]>>)
        ELSE Reject(e)

Iterate ==
  /\ Ok /\ ~Judged("P14") /\ ~In.wide /\ pos > 0 /\ pos < Len(Out.states)
  /\ LET s == Logged(pos)
         prev == st[Len(st)]
         next == IF Fixed \/ Len(s.members) # Len(prev) THEN prev ELSE Update(In.pts, prev, Members(s), In.dim)
     IN Consume(IF Judged("P13") THEN (IF Fixed THEN StartError(s) ELSE StepError(s, prev, next))
                \* with a tolerance of 0 the iteration never ends early
                ELSE IF ~Fixed /\ s = Logged(pos - 1) /\ StepError(s, prev, next) # "" THEN "stopped although the clusters have not settled"
                ELSE "",
                Append(st, next))

(* ---- P15: which state a run with tolerance and limit ends in ------------- *)
(* Moves that are too close to the tolerance for rounded arithmetic may count *)
(* as small or not.                                                           *)
Slack(x) == (x \div (IF In.prec = "f32" THEN 5000 ELSE 1000000)) + 1
Occupied(m) == {j \in DOMAIN st[m + 1] : Logged(m).members[j] # <<>>}
L(m, j, r) == r.den * Moved(st[m][j], st[m + 1][j])
R(m, j, r) == r.num * Base(st[m][j], st[m + 1][j])
SurelySettled(m, r)  == \A j \in Occupied(m) : L(m, j, r) + Slack(L(m, j, r)) < R(m, j, r)
(* In powers of two nothing is rounded: a move by exactly the tolerance is no smaller one. *)
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64}
Exactly(m, j, r) == /\ r.den = 64 /\ st[m][j][2] \in PowersOfTwo /\ st[m + 1][j][2] \in PowersOfTwo
                    /\ L(m, j, r) = R(m, j, r)
MaybeSettled(m, r)   == \A j \in Occupied(m) : L(m, j, r) - Slack(L(m, j, r)) < R(m, j, r) /\ ~Exactly(m, j, r)
Recorded == Len(Out.states) - 1
(* The numbers of iterations after which the run may end. *)
Ends(r) == {m \in 0..Min(r.max, Recorded) :
              /\ \A b \in 1..(m - 1) : ~SurelySettled(b, r)
              /\ m = r.max \/ (m > 0 /\ MaybeSettled(m, r))}
(* The run may go on beyond the recorded states. *)
Unknown(r) == r.max > Recorded /\ \A b \in 1..Recorded : ~SurelySettled(b, r)
Equal(a, b) == /\ Len(a.cents) = Len(b.cents) /\ a.members = b.members
               /\ \A j \in DOMAIN a.cents : \A d \in 1..In.dim : Abs(a.cents[j][d] - b.cents[j][d]) <= 1
Run ==
  /\ Ok /\ Judged("P15") /\ ~In.wide /\ pos >= Len(Out.states) /\ pos < Len(Out.states) + Len(Out.runs)
  /\ LET n == pos - Len(Out.states) + 1
         r == In.runs[n]
         s == Out.runs[n]
     IN Consume(IF Fixed THEN StartError(s)
                ELSE IF Unknown(r) \/ \E m \in Ends(r) : Equal(s, Logged(m)) THEN ""
                ELSE IF \E m \in 0..Recorded : Equal(s, Logged(m)) THEN "did not stop where the clusters have settled or the limit is reached"
                ELSE "the result is not the state after some iteration", st)

(* ---- wide behaviours: many points and iterations ------------------------- *)
(* The previous centroids are taken from the log (rounded to 1/FP) instead of *)
(* followed as rationals, so that the integers stay small. Only points whose  *)
(* assignment is wrong by more than the rounding count, and moves within the  *)
(* rounding of the tolerance may count as either.                             *)
L1(p, q) == IF In.dim = 2 THEN Abs(p[1] - q[1]) + Abs(p[2] - q[2])
            ELSE IF In.dim = 3 THEN Abs(p[1] - q[1]) + Abs(p[2] - q[2]) + Abs(p[3] - q[3])
            ELSE Abs(p[1] - q[1]) + Abs(p[2] - q[2]) + Abs(p[3] - q[3]) + Abs(p[4] - q[4]) + Abs(p[5] - q[5])
ClearlyFurther(p, a, b) == D2(p, a) > D2(p, b) + 4 * (L1(p, a) + L1(p, b)) + 40
WideStepError(s, prev) ==
  LET members == Members(s)
  IN IF ShapeError(s) # "" THEN ShapeError(s)
     ELSE IF Len(s.cents) # Len(prev.cents) THEN "the number of clusters changed"
     ELSE IF UNION Range(members) # 1..N THEN "a point is in no cluster"
     ELSE IF SumSeq(s.counts) # N THEN "a point is in two clusters"
     ELSE IF \E j \in DOMAIN members : \E i \in members[j] : \E p \in {Scale(In.pts[i], FP)} :
               \E o \in DOMAIN prev.cents : ClearlyFurther(p, prev.cents[j], prev.cents[o])
          THEN "a point is not with a nearest centroid"
     ELSE IF \E j \in DOMAIN members : members[j] = {} /\ \E d \in 1..In.dim : Abs(s.cents[j][d] - prev.cents[j][d]) > 1
          THEN "the centroid of an empty cluster moved"
     ELSE IF \E j \in DOMAIN members : members[j] # {} /\ ~Same(s.cents[j], Mean(In.pts, members[j], In.dim))
          THEN "the centroid is not the mean of its points"
     ELSE ""
WideIterate ==
  /\ Ok /\ ~Judged("P14") /\ In.wide /\ pos > 0 /\ pos < Len(Out.states)
  /\ LET s == Logged(pos)
         prev == Logged(pos - 1)
     IN Consume(IF Judged("P13") THEN WideStepError(s, prev)
                ELSE IF s = prev /\ (pos = 1 \/ prev # Logged(pos - 2)) /\ WideStepError(s, prev) # "" THEN "stopped although the clusters have not settled"
                ELSE "", st)

(* Every state with the squared distances (in 1/FP) its occupied centroids moved to get there. *)
Moves(m) == {D2(Logged(m).cents[j], Logged(m - 1).cents[j]) : j \in {j \in DOMAIN Logged(m).cents : Logged(m).members[j] # <<>>}}
WideSlack == 8
WideSure(m, t)  == t > WideSlack /\ \A d \in Moves(m) : d < Sq(t - WideSlack)
WideMaybe(m, t) == \A d \in Moves(m) : d < Sq(t + WideSlack)
WideEnds(r) == {m \in 0..Min(r.max, Recorded) :
                  /\ \A b \in 1..(m - 1) : ~WideSure(b, r.t)
                  /\ m = r.max \/ (m > 0 /\ WideMaybe(m, r.t))}
WideUnknown(r) == r.max > Recorded /\ \A b \in 1..Recorded : ~WideSure(b, r.t)
WideRun ==
  /\ Ok /\ Judged("P15") /\ In.wide /\ pos >= Len(Out.states) /\ pos < Len(Out.states) + Len(Out.runs)
  /\ LET n == pos - Len(Out.states) + 1
         r == In.runs[n]
         s == Out.runs[n]
     IN Consume(IF WideUnknown(r) \/ \E m \in WideEnds(r) : Equal(s, Logged(m)) THEN ""
                ELSE IF \E m \in 0..Recorded : Equal(s, Logged(m)) THEN "did not stop where the clusters have settled or the limit is reached"
                ELSE "the result is not the state after some iteration", st)

Next == Broken \/ Seeding \/ Start \/ Iterate \/ Run \/ WideIterate \/ WideRun
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
