----------------------------- MODULE EdgeQueue -----------------------------
(* A priority queue of weighted edges: a binary heap that only looks at edges  *)
(* through their order, one exchange per step, next to the bag that it stands  *)
(* for. Prim's algorithm relies on it (P16, P17); the order is P23.            *)
EXTENDS EdgeOrder
CONSTANTS Vertices, Weights, MaxLen,
          Order     \* "reversed": as specified; "plain": the heavier edge is greater;
                    \* "byvertex": ties and non-ties are decided by the vertices first
VARIABLES heap, bag, up, down, popped
vars == <<heap, bag, up, down, popped>>
Edge == {e \in Vertices \X Vertices \X Weights : e[1] < e[2]}
Nil == <<0, 0, 0>>
Cmp(a, b) == CASE Order = "plain" -> -Compare(a, b)
               [] Order = "byvertex" /\ a[2] # b[2] -> Sign(b[2] - a[2])
               [] OTHER -> Compare(a, b)
Greater(i, j) == Cmp(heap[i], heap[j]) > 0
Idle == up = 0 /\ down = 0

Init == heap = <<>> /\ bag = <<>> /\ up = 0 /\ down = 0 /\ popped = Nil
Push(e) == /\ Idle /\ Len(heap) < MaxLen
           /\ heap' = Append(heap, e) /\ bag' = Append(bag, e)
           /\ up' = Len(heap) + 1 /\ popped' = Nil /\ UNCHANGED down
SiftUp == /\ up > 0
          /\ IF up > 1 /\ Greater(up, up \div 2)
             THEN /\ heap' = [heap EXCEPT ![up] = heap[up \div 2], ![up \div 2] = heap[up]]
                  /\ up' = up \div 2
             ELSE heap' = heap /\ up' = 0
          /\ UNCHANGED <<bag, down, popped>>
Pop == /\ Idle /\ heap # <<>>
       /\ popped' = heap[1]
       /\ bag' = Take(bag, heap[1])
       /\ heap' = IF Len(heap) = 1 THEN <<>> ELSE [SubSeq(heap, 1, Len(heap) - 1) EXCEPT ![1] = heap[Len(heap)]]
       /\ down' = IF Len(heap) = 1 THEN 0 ELSE 1
       /\ UNCHANGED up
Children(i) == {j \in {2 * i, 2 * i + 1} : j <= Len(heap)}
SiftDown == /\ down > 0
            /\ LET over == {j \in Children(down) : Greater(j, down)}
               IN IF over = {} THEN heap' = heap /\ down' = 0
                  ELSE LET j == CHOOSE j \in over : \A k \in over : ~Greater(k, j)
                       IN /\ heap' = [heap EXCEPT ![down] = heap[j], ![j] = heap[down]]
                          /\ down' = j
            /\ UNCHANGED <<bag, up, popped>>
Next == (\E e \in Edge : Push(e)) \/ SiftUp \/ Pop \/ SiftDown
Safe == Init /\ [][Next]_vars

Times(e, s) == Cardinality({i \in DOMAIN s : s[i] = e})
SameBag == \A e \in Edge : Times(e, heap) = Times(e, bag)
(* What has just been taken out is at most as heavy as all that is left. *)
PopsLightest == popped # Nil => \A i \in DOMAIN bag : popped[3] <= bag[i][3]
Settled == (Idle /\ heap # <<>>) => Lightest(bag, heap[1])
WeakOrder == \A a, b, d \in Edge :
  /\ Cmp(a, b) = -Cmp(b, a)
  /\ (Cmp(a, b) <= 0 /\ Cmp(b, d) <= 0) => Cmp(a, d) <= 0
  /\ Equal(a, b) => Cmp(a, b) = 0
ASSUME WeakOrder
=============================================================================
