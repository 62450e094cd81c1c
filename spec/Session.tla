------------------------------ MODULE Session ------------------------------
(* Histories of extract calls from several threads (property P06). A call     *)
(* reads its image, works on a table of the library in several steps, and     *)
(* returns. What is shared between calls is a parameter: the library that     *)
(* exists shares nothing; the other values are faults.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Observer
CONSTANTS Threads, Images, Calls,
          Table      \* "own": a table per call; "shared": one for all calls;
                     \* "kept": the table of the last image with these dimensions is kept;
                     \* "random": the result depends on a hash seed of the call
VARIABLES pc,      \* per thread: idle / read / work / done
          arg,     \* per thread: the image of its call
          own,     \* per thread: its table
          table,   \* the shared table / the kept table per dimensions
          ret,     \* per thread: the last result
          memo,    \* results seen so far: what an observer knows of every image
          left     \* per thread: calls still to be made
vars == <<pc, arg, own, table, ret, memo, left>>

(* image -> dimensions and RGB content; 1 and 2 differ in alpha only, 3 has    *)
(* the same dimensions but another content.                                    *)
Dim == <<1, 1, 1, 2>>
Rgb == <<7, 7, 8, 7>>
Key(i) == <<Dim[i], Rgb[i]>>
Palette(dim, rgb) == 100 * dim + rgb

Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 1]
  /\ own = [t \in Threads |-> None] /\ ret = [t \in Threads |-> None]
  /\ table = [d \in {Dim[i] : i \in Images} |-> None]
  /\ memo = [k \in {Key(i) : i \in Images} |-> None]
  /\ left = [t \in Threads |-> Calls]

Call(t, i) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ pc' = [pc EXCEPT ![t] = "read"] /\ arg' = [arg EXCEPT ![t] = i]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<own, table, ret, memo>>
Fill(t) ==  \* the pixels are collected
  /\ pc[t] = "read"
  /\ pc' = [pc EXCEPT ![t] = "work"]
  /\ LET i == arg[t] d == Dim[arg[t]]
     IN CASE Table = "shared" -> table' = [x \in DOMAIN table |-> Rgb[i]] /\ own' = own
          [] Table = "kept" -> /\ table' = [table EXCEPT ![d] = IF @ = None THEN Rgb[i] ELSE @]
                               /\ own' = [own EXCEPT ![t] = table'[d]]
          [] Table = "random" -> \E s \in 0..1 : own' = [own EXCEPT ![t] = Rgb[i] + 50 * s] /\ table' = table
          [] OTHER -> own' = [own EXCEPT ![t] = Rgb[i]] /\ table' = table
  /\ UNCHANGED <<arg, ret, memo, left>>
Work(t) ==  \* and clustered
  /\ pc[t] = "work"
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ ret' = [ret EXCEPT ![t] = Palette(Dim[arg[t]], IF Table = "shared" THEN table[Dim[arg[t]]] ELSE own[t])]
  /\ UNCHANGED <<arg, own, table, memo, left>>
Return(t) ==
  /\ pc[t] = "done"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ memo' = Learn(memo, Key(arg[t]), ret[t])
  /\ UNCHANGED <<arg, own, table, ret, left>>
Next == \E t \in Threads : (\E i \in Images : Call(t, i)) \/ Fill(t) \/ Work(t) \/ Return(t)
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

Function == \A t \in Threads : pc[t] = "done" => Agrees(memo, Key(arg[t]), ret[t])
(* A call is answered as if it were the only one. *)
Alone == \A t \in Threads : pc[t] = "done" => ret[t] = Palette(Dim[arg[t]], Rgb[arg[t]])
Answered == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
