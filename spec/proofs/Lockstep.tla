------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* Why C01 holds for every history and every cut: an encoder and a decoder *)
(* that take the same steps in the same order are in step, whatever the    *)
(* steps do to the tables.  Hpack refines this with                        *)
(*    table = [tab, max],  operation = one representation on the wire,     *)
(*    Step  = Insert, SetMax or nothing;                                   *)
(* that it does (an encoded operation is read back as itself by the same   *)
(* table, and not before its last octet is there) is what TLC checks as    *)
(* InStep, BestMeansSame and CutAnywhere.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Table, Op, Empty, Step(_, _)
ASSUME Closed == Empty \in Table /\ \A t \in Table, o \in Op : Step(t, o) \in Table

VARIABLES enc, dec,
          sent,    \* every operation ever encoded
          past,    \* the encoder's tables, past[k + 1] after k operations
          done     \* how many of them the decoder has taken

vars == <<enc, dec, sent, past, done>>

Init == enc = Empty /\ dec = Empty /\ sent = <<>> /\ past = <<Empty>> /\ done = 0
Encode(o) == /\ enc' = Step(enc, o)
             /\ sent' = Append(sent, o)
             /\ past' = Append(past, Step(enc, o))
             /\ UNCHANGED <<dec, done>>
Decode == /\ done < Len(sent)
          /\ dec' = Step(dec, sent[done + 1])
          /\ done' = done + 1
          /\ UNCHANGED <<enc, sent, past>>
Next == (\E o \in Op : Encode(o)) \/ Decode
Spec == Init /\ [][Next]_vars

InStep == done = Len(sent) => dec = enc

Inv == /\ enc \in Table /\ dec \in Table
       /\ sent \in Seq(Op) /\ past \in Seq(Table)
       /\ done \in Nat /\ done <= Len(sent)
       /\ Len(past) = Len(sent) + 1
       /\ enc = past[Len(past)]
       /\ dec = past[done + 1]
       /\ \A k \in 1..Len(sent) : past[k + 1] = Step(past[k], sent[k])

LEMMA Start == Init => Inv
  BY Closed DEF Init, Inv

LEMMA OneEncode == ASSUME Inv, NEW o \in Op, Encode(o) PROVE Inv'
<1>1. Step(enc, o) \in Table
  BY Closed DEF Inv
<1>2. /\ Len(sent') = Len(sent) + 1 /\ sent' \in Seq(Op)
      /\ \A k \in 1..Len(sent) : sent'[k] = sent[k]
      /\ sent'[Len(sent) + 1] = o
  BY DEF Inv, Encode
<1>3. /\ Len(past') = Len(past) + 1 /\ past' \in Seq(Table)
      /\ \A k \in 1..Len(past) : past'[k] = past[k]
      /\ past'[Len(past) + 1] = Step(enc, o)
  BY <1>1 DEF Inv, Encode
<1>4. \A k \in 1..Len(sent') : past'[k + 1] = Step(past'[k], sent'[k])
  BY <1>2, <1>3 DEF Inv
<1>5. dec' = past'[done' + 1]
  BY <1>3 DEF Inv, Encode
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Inv, Encode

LEMMA OneDecode == ASSUME Inv, Decode PROVE Inv'
<1>1. done + 1 \in 1..Len(sent)
  BY DEF Inv, Decode
<1>2. dec' = past[done + 2] /\ dec' \in Table
  BY <1>1, Closed DEF Inv, Decode
<1> QED
  BY <1>1, <1>2 DEF Inv, Decode

THEOREM Spec => []InStep
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. ASSUME Inv, UNCHANGED vars PROVE Inv'
    BY <2>1 DEF Inv, vars
  <2> QED
    BY <2>1, OneEncode, OneDecode DEF Next
<1>2. Inv => InStep
  BY DEF Inv, InStep
<1> QED
  BY Start, <1>1, <1>2, PTL DEF Spec
=============================================================================
