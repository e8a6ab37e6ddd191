------------------------------- MODULE Writing ------------------------------
(***************************************************************************)
(* Why C21 holds for every sink: the design of ProtoSinkMC, for encodings  *)
(* of any length and sinks with any answers.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Octet, Whole
ASSUME WholeIs == Whole \in Seq(Octet)

VARIABLES taken, offer, failed, status
vars == <<taken, offer, failed, status>>

Left == Len(Whole) - Len(taken)
Init == taken = <<>> /\ offer = 0 /\ failed = FALSE /\ status = "writing"
Offer(k) == /\ status = "writing" /\ offer = 0 /\ k <= Left
            /\ offer' = k /\ UNCHANGED <<taken, failed, status>>
Accept(n) == /\ status = "writing" /\ n <= offer
             /\ taken' = taken \o SubSeq(Whole, Len(taken) + 1, Len(taken) + n)
             /\ offer' = offer - n /\ UNCHANGED <<failed, status>>
AskAgain == status = "writing" /\ UNCHANGED vars
Refuse == /\ status = "writing" /\ offer > 0
          /\ failed' = TRUE /\ status' = "err" /\ UNCHANGED <<taken, offer>>
Finish == /\ status = "writing" /\ offer = 0 /\ Left = 0
          /\ status' = "ok" /\ UNCHANGED <<taken, offer, failed>>
Next == \/ \E k \in Nat : Offer(k) \/ Accept(k)
        \/ AskAgain \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars

Inv == /\ taken \in Seq(Octet) /\ Len(taken) <= Len(Whole)
       /\ \A i \in 1..Len(taken) : taken[i] = Whole[i]
       /\ offer \in Nat /\ offer <= Left
       /\ failed \in BOOLEAN
       /\ failed <=> status = "err"
       /\ status \in {"writing", "ok", "err"}
       /\ status = "ok" => Len(taken) = Len(Whole)

Truthful == /\ \A i \in 1..Len(taken) : taken[i] = Whole[i]
            /\ status # "writing" => (failed <=> status # "ok")
            /\ status = "ok" => taken = Whole

LEMMA Begins == Init => Inv
  BY WholeIs DEF Init, Inv, Left

LEMMA Steps == ASSUME Inv, [Next]_vars PROVE Inv'
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF Inv, vars, Left
<1>2. ASSUME NEW k \in Nat, Offer(k) PROVE Inv'
  BY <1>2, WholeIs DEF Inv, Offer, Left
<1>3. ASSUME NEW n \in Nat, Accept(n) PROVE Inv'
  <2> DEFINE piece == SubSeq(Whole, Len(taken) + 1, Len(taken) + n)
  <2>1. Len(taken) \in Nat /\ Len(Whole) \in Nat /\ Len(taken) + n <= Len(Whole)
    BY <1>3, WholeIs DEF Inv, Accept, Left
  <2>2. /\ piece \in Seq(Octet) /\ Len(piece) = n
        /\ \A i \in 1..n : piece[i] = Whole[Len(taken) + i]
    BY <2>1, WholeIs
  <2>3. taken' \in Seq(Octet) /\ Len(taken') = Len(taken) + n
    BY <1>3, <2>2 DEF Accept, Inv
  <2>4. \A i \in 1..Len(taken') : taken'[i] = Whole[i]
    <3> TAKE i \in 1..Len(taken')
    <3>1. CASE i <= Len(taken)
      <4>1. taken'[i] = taken[i]
        BY <1>3, <2>1, <2>2, <2>3, <3>1 DEF Accept, Inv
      <4> QED BY <4>1, <3>1, <2>1 DEF Inv
    <3>2. CASE i > Len(taken)
      <4>1. i - Len(taken) \in 1..n
        BY <3>2, <2>1, <2>3
      <4>2. taken'[i] = piece[i - Len(taken)]
        BY <1>3, <2>1, <2>2, <2>3, <3>2, <4>1 DEF Accept, Inv
      <4> QED BY <2>1, <2>2, <4>1, <4>2
    <3> QED BY <3>1, <3>2, <2>1, <2>3
  <2> QED BY <1>3, <2>1, <2>3, <2>4 DEF Inv, Accept, Left
<1>4. CASE AskAgain
  BY <1>4 DEF Inv, AskAgain, vars, Left
<1>5. CASE Refuse
  BY <1>5 DEF Inv, Refuse, Left
<1>6. CASE Finish
  BY <1>6, WholeIs DEF Inv, Finish, Left
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

LEMMA Means == Inv => Truthful
  BY WholeIs DEF Inv, Truthful

THEOREM Spec => []Truthful
  BY Begins, Steps, Means, PTL DEF Spec
=============================================================================
