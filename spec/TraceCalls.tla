----------------------------- MODULE TraceCalls -----------------------------
(* Recorded histories of calls of the algorithms of the real code (P22). A     *)
(* behaviour is the log of several processes, each with several threads; calls *)
(* are logged before they are made and after they have returned. A request is  *)
(* given by its text; results are numbered.                                    *)
EXTENDS TraceBase, Observer

Count(n) == IF Trace[n].outcome = "ok" THEN Len(Trace[n].out) ELSE 1
R == DOMAIN In.texts
Init == /\ c \in DOMAIN Trace /\ pos = 0
        /\ st = [busy |-> {}, memo |-> <<>>, first |-> <<>>]
FirstOf == [i \in R |-> CHOOSE j \in 1..i : In.texts[j] = In.texts[i] /\ \A k \in 1..(j - 1) : In.texts[k] # In.texts[i]]
S == IF pos = 0 THEN [st EXCEPT !.memo = [i \in R |-> None], !.first = TLCEval(FirstOf)] ELSE st
Event == Out[pos + 1]
Who(e) == <<e.proc, e.t>>
Call ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Out) /\ Event.e = "call"
  /\ \E s \in {S} :
     Consume(IF \E b \in s.busy : b[1] = Who(Event) THEN "witness: call of a busy thread" ELSE "",
             [s EXCEPT !.busy = @ \cup {<<Who(Event), Event.i>>}])
Return ==
  /\ Ok /\ pos >= 0 /\ pos < Len(Out) /\ Event.e = "return"
  /\ \E s \in {S} : \E k \in {s.first[Event.i]} :
     Consume(IF <<Who(Event), Event.i>> \notin s.busy THEN "witness: return without call"
             ELSE IF ~Agrees(s.memo, k, Event.r) THEN "another result for the same request"
             ELSE "",
             [s EXCEPT !.busy = @ \ {<<Who(Event), Event.i>>}, !.memo = Learn(@, k, Event.r)])
Next == Broken \/ Call \/ Return
Spec == Init /\ [][Next]_tvars
Accepted == AllExplained(Count)
=============================================================================
