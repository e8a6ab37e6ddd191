------------------------------ MODULE Eviction ------------------------------
(***************************************************************************)
(* Why C02 holds for every history: the dynamic table as a window on the   *)
(* log of everything ever inserted.  total[k + 1] is the size of the first *)
(* k insertions together; the table is those from number low on, so its    *)
(* size is total[Len(total)] - total[low].  Entries leave at the old end   *)
(* only, as few as possible, and the size never exceeds the maximum.       *)
(* IndexTable says the same of the entries themselves; WindowMC has TLC    *)
(* compare the two.                                                        *)
(***************************************************************************)
EXTENDS Window, NaturalsInduction, TLAPS

VARIABLES total, low, max
vars == <<total, low, max>>

Init == total = <<0>> /\ low = 1 /\ max \in Nat
Insert(s) == /\ total' = Append(total, total[Len(total)] + s)
             /\ low' = Kept(total', low, max)
             /\ max' = max
Resize(m) == /\ total' = total
             /\ low' = Kept(total, low, m)
             /\ max' = m
Next == (\E s \in Nat : Insert(s)) \/ (\E m \in Nat : Resize(m))
Spec == Init /\ [][Next]_vars

TypeOK == /\ total \in Seq(Nat) /\ Len(total) >= 1
          /\ low \in 1..Len(total) /\ max \in Nat
Bounded == Over(total, low) <= max
Inv == TypeOK /\ Bounded

\* One step: nothing comes back, nothing but the oldest goes, and that only if
\* it would not have fitted.
Step == /\ low <= low'
        /\ \A k \in 1..Len(total) : total'[k] = total[k]
        /\ \A k \in low..(low' - 1) : Over(total', k) > max'

LEMMA KeptIs ==
  ASSUME NEW c \in Seq(Nat), Len(c) >= 1, NEW from \in 1..Len(c), NEW m \in Nat
  PROVE  IsKept(c, from, m, Kept(c, from, m))
<1> DEFINE Q(i) == from + i \in from..Len(c) /\ Over(c, from + i) <= m
<1>1. Len(c) - from \in Nat /\ Q(Len(c) - from)
  BY DEF Over
<1>2. \E i \in Nat : Q(i) /\ \A k \in 0..(i - 1) : ~ Q(k)
  <2> HIDE DEF Q
  <2>1. PICK n \in Nat : Q(n)
    BY <1>1
  <2> QED BY ONLY n \in Nat, Q(n), <2>1, SmallestNatural, IsaM("blast")
<1>3. PICK i \in Nat : Q(i) /\ \A k \in 0..(i - 1) : ~ Q(k)
  BY <1>2
<1>4. \A j \in from..(from + i - 1) : Over(c, j) > m
  <2> TAKE j \in from..(from + i - 1)
  <2>1. j - from \in 0..(i - 1) /\ from + (j - from) = j
    OBVIOUS
  <2>2. ~ Q(j - from)
    BY <1>3, <2>1
  <2>3. j \in from..Len(c)
    BY <1>3
  <2>4. Over(c, j) \in Int
    BY <2>3 DEF Over
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>5. IsKept(c, from, m, from + i)
  BY <1>3, <1>4 DEF IsKept
<1>6. from + i \in from..Len(c)
  BY <1>3
<1> QED
  BY <1>5, <1>6 DEF Kept

LEMMA Begins == Init => Inv
  BY DEF Init, Inv, TypeOK, Bounded, Over

LEMMA OneInsert == ASSUME Inv, NEW s \in Nat, Insert(s) PROVE Inv' /\ Step
<1>1. /\ total' \in Seq(Nat) /\ Len(total') = Len(total) + 1
      /\ \A k \in 1..Len(total) : total'[k] = total[k]
  BY DEF Inv, TypeOK, Insert
<1>2. IsKept(total', low, max, low')
  <2>1. low \in 1..Len(total') /\ max \in Nat /\ Len(total') >= 1
    BY <1>1 DEF Inv, TypeOK
  <2> QED BY <1>1, <2>1, KeptIs DEF Insert
<1> QED
  BY <1>1, <1>2 DEF Inv, TypeOK, Bounded, Step, Insert, IsKept

LEMMA OneResize == ASSUME Inv, NEW m \in Nat, Resize(m) PROVE Inv' /\ Step
<1>1. IsKept(total, low, m, low')
  BY KeptIs DEF Inv, TypeOK, Resize
<1> QED
  BY <1>1 DEF Inv, TypeOK, Bounded, Step, Resize, IsKept

THEOREM Spec => []Bounded /\ [][Step]_vars
<1>1. Inv /\ [Next]_vars => Inv' /\ [Step]_vars
  <2>1. ASSUME Inv, UNCHANGED vars PROVE Inv'
    BY <2>1 DEF Inv, TypeOK, Bounded, Over, vars
  <2> QED
    BY <2>1, OneInsert, OneResize DEF Next
<1>2. Inv => Bounded
  BY DEF Inv
<1> QED
  BY Begins, <1>1, <1>2, PTL DEF Spec
=============================================================================
