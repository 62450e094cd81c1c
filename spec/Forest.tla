------------------------------- MODULE Forest -------------------------------
(* The parent array with path compression, and that it implements the         *)
(* abstract union-find for every sequence of operations.                      *)
EXTENDS UnionFind, TLC

CONSTANTS N, Compress,   \* "root": every node on the path points to the root (the code)
                         \* "skip": path halving (an equivalent variant)
                         \* "drop": the second loop overwrites before reading (broken)
          Both           \* TRUE: union redirects both roots (the code)

VARIABLES parent, size, next, abs, last
vars == <<parent, size, next, abs, last>>

Nodes == 1..(2 * N)

Init ==
  /\ parent = [i \in Nodes |-> i]
  /\ size = [i \in Nodes |-> IF i <= N THEN 1 ELSE 0]
  /\ next = N + 1
  /\ abs = Start(N)
  /\ last = <<"init">>

RECURSIVE RootOf(_, _)
RootOf(p, x) == IF p[x] = x THEN x ELSE RootOf(p, p[x])
RECURSIVE PathOf(_, _)
PathOf(p, x) == IF p[x] = x THEN {x} ELSE {x} \cup PathOf(p, p[x])

Shorten(p, x) ==
  LET r == RootOf(p, x)
      path == PathOf(p, x) \ {r}
  IN CASE Compress = "root" -> [i \in Nodes |-> IF i \in path THEN r ELSE p[i]]
       [] Compress = "skip" -> [i \in Nodes |-> IF i \in path THEN p[p[i]] ELSE p[i]]
       [] Compress = "drop" -> [i \in Nodes |-> IF i \in path THEN x ELSE p[i]]

Find == \E x \in Known(abs) :
  /\ parent' = Shorten(parent, x)
  /\ last' = <<"find", x, RootOf(parent, x)>>
  /\ UNCHANGED <<size, next, abs>>

Union == \E x, y \in Roots(abs) :
  /\ CanUnite(abs, x, y)
  /\ parent' = [parent EXCEPT ![x] = next, ![y] = IF Both THEN next ELSE parent[y]]
  /\ size' = [size EXCEPT ![next] = size[x] + size[y]]
  /\ next' = next + 1
  /\ abs' = Unite(abs, x, y)
  /\ last' = <<"union", x, y, size[x] + size[y]>>

Next == Find \/ Union
Spec == Init /\ [][Next]_vars
View == <<parent, size, next, abs>>

Sound == \A x \in Known(abs) : FindOk(abs, x, RootOf(parent, x))
SizesSound == \A h \in abs.sets : size[h.label] = Cardinality(h.elems)
Blocks == \A ls \in UNION {[1..k -> Roots(abs)] : k \in 2..3} :
            CanChain(abs, N, ls) => Chain(abs, ls) = OneByOne(abs, ls[1], Tail(ls))
Labels == next = abs.next /\ Cardinality(Roots(abs)) + (next - 1 - N) = N
(* Finds never change any answer; unions answer with the size of the set. *)
Answers == [][/\ last'[1] = "union" => UnionOk(abs, last'[2], last'[3], last'[4])
              /\ last'[1] = "find" => \A x \in Known(abs) : RootOf(parent', x) = RootOf(parent, x)]_vars
=============================================================================
