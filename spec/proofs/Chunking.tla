------------------------------ MODULE Chunking ------------------------------
(***************************************************************************)
(* Why C05, C10 and C17 hold for every cut and every order of calls: a     *)
(* stream has one division into elements; a decoder that takes an element  *)
(* exactly if all of it has arrived has, whenever it can get on no         *)
(* further, delivered the elements that end in what has arrived, and       *)
(* consumed exactly their octets, however the stream was cut and whatever  *)
(* limits calls had.  That the decoders take elements like this (a         *)
(* beginning of an element is never taken, nor is another element seen in  *)
(* it) is what TLC checks as CutAnywhere, ExactIsPrefix and                *)
(* ChunkingIrrelevant.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Ends    \* the position of the last octet of each element
ASSUME Stream == /\ Ends \in Seq(Nat)
                 /\ \A j, k \in 1..Len(Ends) : j < k => Ends[j] < Ends[k]

VARIABLES fed,    \* octets that have arrived
          took    \* elements delivered, in order: their numbers
vars == <<fed, took>>

Used == IF took = <<>> THEN 0 ELSE Ends[took[Len(took)]]
Ready == Len(took) < Len(Ends) /\ Ends[Len(took) + 1] <= fed

Init == fed = 0 /\ took = <<>>
Feed(n) == fed' = fed + n /\ UNCHANGED took
TakeOne == Ready /\ took' = Append(took, Len(took) + 1) /\ UNCHANGED fed
Next == (\E n \in Nat : Feed(n)) \/ TakeOne
Spec == Init /\ [][Next]_vars

Inv == /\ fed \in Nat
       /\ took \in Seq(Nat) /\ Len(took) <= Len(Ends)
       /\ \A k \in 1..Len(took) : took[k] = k
       /\ took # <<>> => Ends[Len(took)] <= fed

Delivered == ~Ready => /\ \A k \in 1..Len(Ends) : (\E j \in 1..Len(took) : took[j] = k) <=> Ends[k] <= fed
                       /\ \A j \in 1..Len(took) : took[j] = j
NeverAhead == Used <= fed

LEMMA Begins == Init => Inv
  BY Stream DEF Init, Inv

LEMMA Steps == ASSUME Inv, [Next]_vars PROVE Inv'
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF Inv, vars
<1>2. ASSUME NEW n \in Nat, Feed(n) PROVE Inv'
  <2>1. took # <<>> => Len(took) \in 1..Len(Ends) /\ Ends[Len(took)] \in Nat
    BY Stream DEF Inv
  <2> QED BY <1>2, <2>1 DEF Inv, Feed
<1>3. CASE TakeOne
  <2>1. /\ Len(took') = Len(took) + 1 /\ took' \in Seq(Nat)
        /\ \A k \in 1..Len(took) : took'[k] = took[k]
        /\ took'[Len(took) + 1] = Len(took) + 1
    BY <1>3 DEF Inv, TakeOne
  <2>2. Len(took) \in Nat /\ Len(Ends) \in Nat /\ Len(took) < Len(Ends)
    BY <1>3, Stream DEF Inv, TakeOne, Ready
  <2>3. \A k \in 1..Len(took') : took'[k] = k
    <3> TAKE k \in 1..Len(took')
    <3>1. k \in 1..Len(took) \/ k = Len(took) + 1
      BY <2>1, <2>2
    <3> QED BY <2>1, <3>1 DEF Inv
  <2>4. Ends[Len(took')] <= fed'
    BY <1>3, <2>1 DEF TakeOne, Ready
  <2> QED BY <1>3, <2>1, <2>2, <2>3, <2>4 DEF Inv, TakeOne
<1> QED BY <1>1, <1>2, <1>3 DEF Next

LEMMA Means == Inv => Delivered /\ NeverAhead
<1> SUFFICES ASSUME Inv PROVE Delivered /\ NeverAhead
  OBVIOUS
<1>1. NeverAhead
  BY Stream DEF Inv, NeverAhead, Used
<1>2. ASSUME ~Ready, NEW k \in 1..Len(Ends)
      PROVE (\E j \in 1..Len(took) : took[j] = k) <=> Ends[k] <= fed
  <2>1. ASSUME NEW j \in 1..Len(took), took[j] = k PROVE Ends[k] <= fed
    <3>1. k = j /\ k <= Len(took) /\ took # <<>> /\ Len(took) \in 1..Len(Ends)
      BY <2>1 DEF Inv
    <3>2. Ends[k] <= Ends[Len(took)] /\ Ends[k] \in Nat /\ Ends[Len(took)] \in Nat
      BY <3>1, Stream
    <3> QED BY <3>1, <3>2 DEF Inv
  <2>2. ASSUME Ends[k] <= fed, ~ (k <= Len(took)) PROVE FALSE
    <3>0. Len(took) \in Nat /\ Len(Ends) \in Nat /\ k \in Nat /\ k <= Len(Ends)
      BY Stream DEF Inv
    <3>1. Len(took) + 1 \in 1..Len(Ends) /\ Len(took) + 1 <= k
      BY <2>2, <3>0
    <3>2. Ends[Len(took) + 1] <= Ends[k] /\ Ends[k] \in Nat /\ Ends[Len(took) + 1] \in Nat
      BY <3>1, Stream
    <3>3. Ends[Len(took) + 1] <= fed
      BY <2>2, <3>2 DEF Inv
    <3> QED BY <1>2, <3>1, <3>3 DEF Ready, Inv
  <2>3. k <= Len(took) => \E j \in 1..Len(took) : took[j] = k
    BY DEF Inv
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2 DEF Delivered, Inv

THEOREM Spec => [](Delivered /\ NeverAhead)
  BY Begins, Steps, Means, PTL DEF Spec
=============================================================================
