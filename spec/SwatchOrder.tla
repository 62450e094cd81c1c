---------------------------- MODULE SwatchOrder ----------------------------
(* The order of swatches, and sorting by it (property P05). A swatch is       *)
(* <<percentage, other>>, where other stands for colour and position. Sorting *)
(* is any sequence of exchanges of neighbours that are in the wrong order.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Shares, Others, MaxLen,
          ByOther      \* TRUE: ties and non-ties are decided by the other component (negative control)
VARIABLES given, seq
vars == <<given, seq>>

Swatch == Shares \X Others
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Compare(a, b) == IF ByOther /\ a[2] # b[2] THEN Sign(a[2] - b[2]) ELSE Sign(a[1] - b[1])
Compares(p, q) == Sign(p - q)   \* of two percentages

Init == /\ seq \in UNION {[1..n -> Swatch] : n \in 0..MaxLen}
        /\ given = seq
Exchange == /\ \E i \in 1..(Len(seq) - 1) :
                 /\ Compare(seq[i], seq[i + 1]) > 0
                 /\ seq' = [seq EXCEPT ![i] = seq[i + 1], ![i + 1] = seq[i]]
            /\ UNCHANGED given
Next == Exchange
Safe == Init /\ [][Next]_vars
Spec == Safe /\ WF_vars(Next)

Settled == \A i \in 1..(Len(seq) - 1) : Compare(seq[i], seq[i + 1]) <= 0
Times(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag == \A x \in Swatch : Times(x, seq) = Times(x, given)
ByShare == Settled => \A i \in 1..(Len(seq) - 1) : seq[i][1] <= seq[i + 1][1]
Stable == Settled => \A x, y \in Swatch : (x[1] = y[1] /\ x # y) =>
  LET First(s, z) == CHOOSE i \in DOMAIN s : s[i] = z /\ \A j \in DOMAIN s : s[j] = z => i <= j
  IN (Times(x, seq) = 1 /\ Times(y, seq) = 1) => (First(seq, x) < First(seq, y)) = (First(given, x) < First(given, y))
WeakOrder == \A a, b, d \in Swatch :
  /\ Compare(a, b) = -Compare(b, a)
  /\ (Compare(a, b) <= 0 /\ Compare(b, d) <= 0) => Compare(a, d) <= 0
  /\ Compare(a, b) = Compares(a[1], b[1])
Sorts == <>[]Settled
=============================================================================
