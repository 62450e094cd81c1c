------------------------------ MODULE UnionFind ------------------------------
(* src/math/clustering/hierarchical/union_find.rs: labelled union-find.       *)
(* Abstract state: the current sets. A set is [label, elems]; elements are    *)
(* 1..n and the labels of sets that were joined stay valid arguments of find. *)
(* (P20; labels are 1-based here: the t-th union makes label n + t.)          *)
EXTENDS Integers, Sequences, FiniteSets

Start(n) == [sets |-> {[label |-> i, elems |-> {i}, all |-> {i}] : i \in 1..n}, next |-> n + 1]
Known(s) == UNION {x.all : x \in s.sets}      \* valid arguments
Holder(s, x) == CHOOSE h \in s.sets : x \in h.all
Roots(s) == {h.label : h \in s.sets}

FindOk(s, x, answer) == answer = Holder(s, x).label

CanUnite(s, x, y) == x # y /\ x \in Roots(s) /\ y \in Roots(s)
Joined(s, x, y) == Holder(s, x).elems \cup Holder(s, y).elems
UnionOk(s, x, y, answer) == answer = Cardinality(Joined(s, x, y))
Unite(s, x, y) ==
  LET a == Holder(s, x)
      b == Holder(s, y)
  IN [sets |-> (s.sets \ {a, b}) \cup {[label |-> s.next, elems |-> a.elems \cup b.elems,
                                        all |-> a.all \cup b.all \cup {s.next}]},
      next |-> s.next + 1]

(* ---- a block of unions at once ------------------------------------------- *)
(* ls: two or more current roots. The first is joined with the second, the     *)
(* result with the third and so on. All but the first are elements (labels of  *)
(* 1..n, n of Start), so that their sets are single elements.                  *)
Single(i) == [label |-> i, elems |-> {i}, all |-> {i}]
CanChain(s, n, ls) ==
  /\ Len(ls) >= 2
  /\ Cardinality({ls[i] : i \in DOMAIN ls}) = Len(ls)
  /\ ls[1] \in Roots(s)
  /\ \A i \in 2..Len(ls) : ls[i] \in 1..n /\ Single(ls[i]) \in s.sets
ChainOk(s, ls, answers) ==
  /\ Len(answers) = Len(ls) - 1
  /\ \E size \in {Cardinality(Holder(s, ls[1]).elems)} : \A i \in DOMAIN answers : answers[i] = size + i
Chain(s, ls) ==
  LET first == Holder(s, ls[1])
      rest == {ls[i] : i \in 2..Len(ls)}
      last == s.next + Len(ls) - 2
  IN [sets |-> (s.sets \ ({first} \cup {Single(i) : i \in rest}))
               \cup {[label |-> last, elems |-> first.elems \cup rest, all |-> first.all \cup rest \cup (s.next..last)]},
      next |-> last + 1]
(* What a block means: the same as its unions one after the other (checked on  *)
(* the small model, Forest.tla).                                               *)
RECURSIVE OneByOne(_, _, _)
OneByOne(s, top, ls) ==
  IF ls = <<>> THEN s ELSE OneByOne(Unite(s, top, Head(ls)), s.next, Tail(ls))
=============================================================================
