------------------------------ MODULE Observer ------------------------------
(* What an observer of extract calls knows: the result (a number, 0 = not yet *)
(* known) for every content of an image. A result that differs from the known *)
(* one shows that extraction is no function of the image.                     *)
None == 0
Learn(m, k, r) == IF m[k] = None THEN [m EXCEPT ![k] = r] ELSE m
Agrees(m, k, r) == m[k] = None \/ m[k] = r
=============================================================================
