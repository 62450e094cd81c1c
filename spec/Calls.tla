------------------------------- MODULE Calls -------------------------------
(* Histories of calls of the algorithms from several threads (property P22). A *)
(* call gets a request <<data, option, generator>>, copies its data to a work  *)
(* area, computes in two steps and returns. What a call shares with others is  *)
(* a parameter: nothing in the library that exists; the rest are faults.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Observer
CONSTANTS Threads, Requests, Budget,
          Shared     \* "nothing"; "area": one work area for all threads;
                     \* "bysize": results are kept for the size of the data;
                     \* "generator": the state of the generator outlives the call;
                     \* "hashed": a table is visited in an order that is chosen anew
VARIABLES pc, req, area, half, ret, kept, drawn, memo, left
vars == <<pc, req, area, half, ret, kept, drawn, memo, left>>

(* request -> size and content of the data, option, initial generator state *)
Size == <<2, 2, 2, 3>>
Data == <<5, 6, 5, 5>>
Option == <<1, 1, 2, 1>>
Seed == <<0, 0, 0, 1>>
Answer(i) == 1000 * Size[i] + 100 * Data[i] + 10 * Option[i] + Seed[i]
Area(t) == IF Shared = "area" THEN 0 ELSE t

Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ req = [t \in Threads |-> 1]
  /\ area = [a \in Threads \cup {0} |-> 0] /\ half = [t \in Threads |-> 0]
  /\ ret = [t \in Threads |-> None]
  /\ kept = [s \in {2, 3} |-> None] /\ drawn = 0
  /\ memo = [i \in Requests |-> None] /\ left = Budget
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t, i) ==
  /\ pc[t] = "idle" /\ left > 0 /\ Goto(t, "load") /\ req' = [req EXCEPT ![t] = i] /\ left' = left - 1
  /\ UNCHANGED <<area, half, ret, kept, drawn, memo>>
Load(t) ==
  /\ pc[t] = "load" /\ Goto(t, "first")
  /\ area' = [area EXCEPT ![Area(t)] = Data[req[t]]]
  /\ UNCHANGED <<req, half, ret, kept, drawn, memo, left>>
First(t) ==
  /\ pc[t] = "first" /\ Goto(t, "second")
  /\ half' = [half EXCEPT ![t] = 10 * Option[req[t]] + Seed[req[t]] + (IF Shared = "generator" THEN drawn ELSE 0)]
  /\ drawn' = IF drawn < 3 /\ Shared = "generator" THEN drawn + 1 ELSE drawn
  /\ UNCHANGED <<req, area, ret, kept, memo, left>>
Second(t) ==
  /\ pc[t] = "second" /\ Goto(t, "done")
  /\ \E order \in IF Shared = "hashed" THEN {0, 50000} ELSE {0} :
     LET i == req[t]
         fresh == 1000 * Size[i] + 100 * area[Area(t)] + half[t] + order
     IN IF Shared = "bysize"
        THEN /\ kept' = [kept EXCEPT ![Size[i]] = IF @ = None THEN fresh ELSE @]
             /\ ret' = [ret EXCEPT ![t] = kept'[Size[i]]]
        ELSE ret' = [ret EXCEPT ![t] = fresh] /\ kept' = kept
  /\ UNCHANGED <<req, area, half, drawn, memo, left>>
Return(t) ==
  /\ pc[t] = "done" /\ Goto(t, "idle")
  /\ memo' = Learn(memo, req[t], ret[t])
  /\ UNCHANGED <<req, area, half, ret, kept, drawn, left>>
Next == \E t \in Threads : (\E i \in Requests : Call(t, i)) \/ Load(t) \/ First(t) \/ Second(t) \/ Return(t)
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)
Function == \A t \in Threads : pc[t] = "done" => Agrees(memo, req[t], ret[t])
Alone == \A t \in Threads : pc[t] = "done" => ret[t] = Answer(req[t])
Answered == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
