---------------------------- MODULE GenUnionFind ----------------------------
(* Enumerates every sequence of Len operations on N elements (arguments as    *)
(* the abstract union-find allows them) for replay on the real code.          *)
EXTENDS UnionFind, TLC, Json, IOUtils, SequencesExt

CONSTANTS N, Depth

RECURSIVE Histories(_, _)
Histories(s, d) ==
  IF d = 0 THEN {<<>>}
  ELSE UNION {{<<<<x>>>> \o h : h \in Histories(s, d - 1)} : x \in Known(s)}
       \cup UNION {{<<p>> \o h : h \in Histories(Unite(s, p[1], p[2]), d - 1)}
                   : p \in {p \in Roots(s) \X Roots(s) : CanUnite(s, p[1], p[2])}}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> h] : h \in Histories(Start(N), Depth)}))

VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
=============================================================================
