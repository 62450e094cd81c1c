----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications. The file named by the environment *)
(* variable TRACE holds one record per behaviour of the real code:            *)
(*   [in |-> the case, outcome |-> "ok" or what went wrong, out |-> results]  *)
(* TLC takes every behaviour (variable c) as an initial state and then has to *)
(* explain its events one by one by actions of the specification. An event    *)
(* that no action explains is reported and ends that behaviour.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

LOCAL Fold == INSTANCE SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,    \* which behaviour
          pos,  \* events explained so far; -1 after a rejection
          st    \* abstract state

tvars == <<c, pos, st>>

In  == Trace[c].in
Out == Trace[c].out
Ok  == Trace[c].outcome = "ok"

Reject(why) ==
  /\ PrintT("REJECT " \o In.id \o " " \o ToString(pos + 1) \o " " \o why)
  /\ pos' = -1
  /\ UNCHANGED <<c, st>>

(* Explain the next event: why = "" if the action allows it. *)
Consume(why, next) ==
  \E w \in {why} :
    IF w = "" THEN pos' = pos + 1 /\ st' = next /\ c' = c
    ELSE Reject(w)

(* The call did not return at all. *)
Broken == pos = 0 /\ ~Ok /\ Reject("did not return: " \o Trace[c].outcome)

(* Every event of every behaviour has been explained. *)
AllExplained(Count(_)) ==
  TLCGet("stats").distinct =
    Fold!FoldLeft(LAMBDA sum, n : sum + Count(n) + 1, 0, [n \in 1..Len(Trace) |-> n])
=============================================================================
