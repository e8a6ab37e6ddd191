----------------------------- MODULE FlattenMC ------------------------------
(***************************************************************************)
(* All small prefix codes: starting from one bit, leaves are split, order  *)
(* of symbols included; a leaf may also be dropped (an incomplete code).   *)
(* Every code is printed as flattening calls, for the harness to make.     *)
(***************************************************************************)
EXTENDS Flatten, Json

CONSTANTS MaxSymbols, MaxLength, EmitOn

VARIABLES codes, dropped

Init == codes = <<<<1, 0>>, <<1, 1>>>> /\ dropped = FALSE

\* Leaf i becomes two; the new leaf goes to position j.
Split(i, j) ==
  /\ Len(codes) < MaxSymbols /\ ~dropped
  /\ codes[i][1] < MaxLength
  /\ LET c == codes[i]
         left == [codes EXCEPT ![i] = <<c[1] + 1, 2 * c[2]>>]
     IN codes' = SubSeq(left, 1, j - 1) \o <<<<c[1] + 1, 2 * c[2] + 1>>>> \o SubSeq(left, j, Len(left))
  /\ UNCHANGED dropped
Swap == codes = <<<<1, 0>>, <<1, 1>>>> /\ codes' = <<<<1, 1>>, <<1, 0>>>> /\ UNCHANGED dropped
Drop1(i) ==
  /\ ~dropped /\ Len(codes) > 1
  /\ codes' = SubSeq(codes, 1, i - 1) \o SubSeq(codes, i + 1, Len(codes))
  /\ dropped' = TRUE

Next == \/ \E i \in DOMAIN codes : \E j \in 1..(Len(codes) + 1) : Split(i, j)
        \/ Swap
        \/ \E i \in DOMAIN codes : Drop1(i)

Spec == Init /\ [][Next]_<<codes, dropped>>

\* The construction is right for every code and speed.
AlwaysPrefixCode == IsPrefixCode(codes)
FlattenRight == \A n \in 1..5 : TableOK(codes, n, FlattenCode(codes, n))
\* One state, one line.
ASSUME EmitOn => PrintT("#{}")
Emitted ==
  EmitOn => \A n \in 1..5 : PrintT("?" \o ToJson([op |-> "hflat", codes |-> codes, s |-> n]))
=============================================================================
