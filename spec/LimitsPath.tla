---------------------------- MODULE LimitsPath ----------------------------
(* Two numbers are limited, again and again (small ranges stand for all).      *)
EXTENDS Limits
CONSTANTS Lo, Top, Units, Steps,
          Kind      \* "clamp"; faults: "wrap" (into the range by its width), "open" (limits excluded)
VARIABLES v, given, times
vars == <<v, given, times>>
Numbers == {n - Top : n \in 0..Units} \X {n - Steps : n \in 0..(2 * Steps)}
Limit(x) == CASE Kind = "wrap" -> <<Lo + ((x[1] - Lo) % (Top - Lo + 1)), x[2]>>
              [] Kind = "open" -> IF Before(x, <<Top, 0>>) THEN Limited(x, Lo, Top) ELSE <<Top, -1>>
              [] OTHER -> Limited(x, Lo, Top)
Init == v \in Numbers \X Numbers /\ given = v /\ times = 0
Again == times < 2 /\ v' = <<Limit(v[1]), Limit(v[2])>> /\ times' = times + 1 /\ UNCHANGED given
Spec == Init /\ [][Again]_vars
Inside == times > 0 => \A i \in 1..2 : ~Before(v[i], <<Lo, 0>>) /\ ~Before(<<Top, 0>>, v[i])
Kept == \A i \in 1..2 : (~Before(given[i], <<Lo, 0>>) /\ ~Before(<<Top, 0>>, given[i])) => v[i] = given[i]
Ordered == Before(v[1], v[2]) => Before(given[1], given[2])
Once == [][times > 0 => v' = v]_vars
=============================================================================
