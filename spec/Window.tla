------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* A table as a window on the log of everything inserted: c[k + 1] is the  *)
(* size of the first k insertions together, the entries from number k on   *)
(* are there.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Over(c, k) == c[Len(c)] - c[k]
IsKept(c, from, m, k) == /\ k \in from..Len(c)
                         /\ Over(c, k) <= m
                         /\ \A j \in from..(k - 1) : Over(c, j) > m
Kept(c, from, m) == CHOOSE k \in from..Len(c) : IsKept(c, from, m, k)
=============================================================================
