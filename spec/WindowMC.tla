------------------------------ MODULE WindowMC ------------------------------
(***************************************************************************)
(* The window of the proof (proofs/Eviction) and the eviction of the       *)
(* specification are the same: every table of up to five entries, every    *)
(* maximum.                                                                *)
(***************************************************************************)
EXTENDS IndexTable, Window, TLC

Lengths == {0, 1, 7, 40}
Logs == UNION {[1..n -> Lengths] : n \in 0..5}       \* oldest first
Entry(k) == <<[i \in 1..k |-> 97], <<>>>>
Newest(log) == [i \in DOMAIN log |-> Entry(log[Len(log) + 1 - i])]
Totals(log) == LET F[k \in 0..Len(log)] == IF k = 0 THEN 0 ELSE F[k - 1] + 32 + log[k]
               IN [k \in 1..(Len(log) + 1) |-> F[k - 1]]
Maxima == {0, 31, 32, 33, 64, 65, 71, 72, 73, 104, 105, 111, 112, 144, 160, 161, 192, 216, 360, 361}

ASSUME \A log \in Logs, m \in Maxima :
         Len(Evict(Newest(log), U32(m))) = Len(log) + 1 - Kept(Totals(log), 1, m)
ASSUME \A log \in Logs : TableSize(Newest(log)) = Over(Totals(log), 1)
\* Evicting in steps is evicting at once.
ASSUME \A log \in Logs, m \in {32, 72, 105, 144, 216} :
         \A l \in Maxima : l <= m =>
           Kept(Totals(log), Kept(Totals(log), 1, m), l) = Kept(Totals(log), 1, l)
=============================================================================
