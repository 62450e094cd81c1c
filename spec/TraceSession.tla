---------------------------- MODULE TraceSession ----------------------------
(* Recorded histories of extract calls of the real code (P06). A behaviour is *)
(* the log of one or more processes, each with several threads. Every call is *)
(* logged before it is made and after it has returned; results are numbered.  *)
EXTENDS TraceBase, Observer

Count(n) == IF Trace[n].outcome = "ok" THEN Len(Trace[n].out) ELSE 1

(* Images of equal dimensions and RGB bytes are the same: the number of the    *)
(* first of them stands for the content. Large images are given by blocks      *)
(* (Blocks.tla): they are the same if they have the same blocks and noise.     *)
OfBlocks(g) == "blocks" \in DOMAIN g
Bytes(g) == IF OfBlocks(g)
            THEN <<"blocks", <<g.w, g.h, g.slope>>, g.noise, g.blocks, [k \in DOMAIN g.colors |-> g.colors[k]]>>
            ELSE <<"pixels", <<g.w, g.h, 0>>, <<>>, <<>>, [p \in DOMAIN g.px |-> g.colors[g.px[p]]]>>
Same(x, y) == x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ x[4] = y[4] /\ x[5] = y[5]
FirstOf(images) ==
  LET b == [i \in DOMAIN images |-> TLCEval(Bytes(images[i]))]
  IN [i \in DOMAIN images |-> CHOOSE j \in 1..i : Same(b[j], b[i]) /\ \A k \in 1..(j - 1) : ~Same(b[k], b[i])]
Keys(images) == {<<i, prec>> : i \in DOMAIN images, prec \in {32, 64}}
Init == /\ c \in DOMAIN Trace /\ pos = 0
        /\ st = [busy |-> <<>>, memo |-> <<>>, first |-> <<>>, ready |-> FALSE]
Fresh == [busy |-> {}, memo |-> [k \in Keys(In.images) |-> None], first |-> TLCEval(FirstOf(In.images)), ready |-> TRUE]
S == IF st.ready THEN st ELSE Fresh

Event == Out[pos + 1]
Who(e) == <<e.proc, e.t>>
Call ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Out) /\ Event.e = "call"
  /\ \E s \in {S} :
     Consume(IF \E b \in s.busy : b[1] = Who(Event) THEN "witness: call of a busy thread" ELSE "",
             [s EXCEPT !.busy = @ \cup {<<Who(Event), Event.i, Event.p>>}])
Return ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Out) /\ Event.e = "return"
  /\ \E s \in {S} : \E k \in {<<s.first[Event.i], Event.p>>} :
     Consume(IF <<Who(Event), Event.i, Event.p>> \notin s.busy THEN "witness: return without call"
             ELSE IF ~Agrees(s.memo, k, Event.r) THEN "another palette for the same image"
             ELSE "",
             [s EXCEPT !.busy = @ \ {<<Who(Event), Event.i, Event.p>>}, !.memo = Learn(@, k, Event.r)])
Next == Broken \/ Call \/ Return
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
