------------------------------ MODULE HpackMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of HpackCalls with a finite list of calls.       *)
(* The configuration chooses the list (Calls), the initial table size, how *)
(* many octets may be in flight and how many calls a history may have.     *)
(* Every transition TLC takes is printed as one line of JSON: the calls    *)
(* that lead to the source state, the call, the expected reply and the     *)
(* expected tables after it.  The harness replays them on the real code.   *)
(***************************************************************************)
EXTENDS HpackCalls, Json, IOUtils

CONSTANTS Calls, StartMax, MaxFlight, MaxCalls, Alone, EmitOn

VARIABLES hist,   \* the calls so far, as positions in Calls (hidden by the view)
          lastc   \* the last of them

mcvars == <<hvars, tbl, who, others, hist, lastc>>
View == <<Current, who, others, Len(hist)>>
ViewNoDepth == <<Current, who, others>>

Init ==
  /\ HpackInit(StartMax, StartMax) /\ TableInit(StartMax)
  /\ hist = <<>> /\ lastc = 0

\* Calls that would be no-ops of the harness are left out.
Sensible(c) ==
  CASE c.op = "deliver" -> Len(wire) >= c.k
    [] c.op = "flush" -> wire # <<>>
    [] c.op = "discard" -> buf # <<>>
    [] c.op = "decode" -> buf # <<>>
    [] c.op = "decode_exact" -> buf # <<>>
    [] c.op = "set_limit" -> c.s # dec.limit
    [] c.op = "switch" -> c.to # who
    [] c.op = "inject" -> /\ Len(wire) + Len(buf) + Len(c.b) <= MaxFlight
                          /\ (Alone => wire = <<>> /\ buf = <<>>)
    [] c.op \in {"enc_lit", "enc_plain", "enc_idx", "enc_idxname", "resize"} ->
         Alone => wire = <<>> /\ buf = <<>>
    [] OTHER -> TRUE

Next ==
  \E i \in 1..Len(Calls) :
    /\ Len(hist) < MaxCalls
    /\ Sensible(Calls[i])
    /\ Do(Calls[i])
    /\ Len(wire') + Len(buf') <= MaxFlight
    /\ hist' = Append(hist, i)
    /\ lastc' = i

HasTable == "t_stat" \in {Calls[i].op : i \in 1..Len(Calls)}

\* The list of calls, once, and then a line for every transition, printed
\* before TLC looks whether its target is new.
ASSUME EmitOn =>
  PrintT("#" \o ToJson([calls |-> Calls, first |-> [op |-> "new", emax |-> StartMax, dmax |-> StartMax], probe |-> 1]))
Emitted ==
  EmitOn =>
    PrintT("@" \o ToJson([h |-> hist, c |-> lastc', e |-> reply',
                   p |-> IF HasTable
                         THEN [t |-> tbl'.tab, s |-> TableStat(tbl')]
                         ELSE [dtab |-> dec'.tab, dmax |-> dec'.max, elen |-> Len(enc'.tab), emax |-> enc'.max]]))

Spec == Init /\ [][Next]_mcvars

-----------------------------------------------------------------------------
(* C22: seen from one instance, the calls on the others are nothing at all.  *)
Of(k) == IF who = k THEN Current ELSE IF k \in DOMAIN others THEN others[k] ELSE Fresh([emax |-> U32(70), dmax |-> U32(70)])
First == INSTANCE HpackCalls WITH
  enc <- Of(1).enc, dec <- Of(1).dec, tbl <- Of(1).tbl, wire <- Of(1).wire, buf <- Of(1).buf, due <- Of(1).due,
  clean <- Of(1).clean, who <- 1, others <- <<>>
Second == INSTANCE HpackCalls WITH
  enc <- Of(2).enc, dec <- Of(2).dec, tbl <- Of(2).tbl, wire <- Of(2).wire, buf <- Of(2).buf, due <- Of(2).due,
  clean <- Of(2).clean, who <- 2, others <- <<>>
FirstAlone == [][\E i \in 1..Len(Calls) : First!Single(Calls[i])]_(Of(1))
SecondAlone == [][\E i \in 1..Len(Calls) : Second!Single(Calls[i])]_(Of(2))

-----------------------------------------------------------------------------
(* Parameters of the runs (see the .cfg files).                              *)
Tiny == <<0, 70>>      \* room for two small entries
Three == <<0, 104>>    \* room for three
L(n, v, f) == [op |-> "enc_lit", n |-> n, v |-> v, f |-> f]
P(n, v, f) == [op |-> "enc_plain", n |-> n, v |-> v, f |-> f]
X(i) == [op |-> "enc_idx", i |-> U32(i)]
XN(i, v, f) == [op |-> "enc_idxname", i |-> U32(i), v |-> v, f |-> f]
R(s) == [op |-> "resize", s |-> U32(s)]
SL(s) == [op |-> "set_limit", s |-> U32(s)]
DV(k) == [op |-> "deliver", k |-> k]
FL == [op |-> "flush"]
DC == [op |-> "decode"]
DE(c) == [op |-> "decode_exact", c |-> c]
INJ(o) == [op |-> "inject", b |-> o]
DI == [op |-> "discard"]
TI(n, v) == [op |-> "t_insert", n |-> n, v |-> v]
TU(s) == [op |-> "t_update", s |-> U32(s)]
TG(i) == [op |-> "t_get", i |-> U32(i)]
TF(n, v) == [op |-> "t_find", n |-> n, v |-> v]
TS == [op |-> "t_stat"]
TIt(w) == [op |-> "t_iter", way |-> w]
SW(k, m) == [op |-> "switch", to |-> k, emax |-> U32(m), dmax |-> U32(m)]
Na == <<97>>
Nb == <<98>>
Vx == <<120>>
Vy == <<121>>
Fill(c, n) == [i \in 1..n |-> c]
Method == <<58, 109, 101, 116, 104, 111, 100>>
Get == <<71, 69, 84>>
Post == <<80, 79, 83, 84>>
Accept == <<97, 99, 99, 101, 112, 116>>

\* Histories of both sides: fields in every form, eviction, duplicates,
\* references to entries about to be evicted, size changes both ways.
LockstepCalls == <<
  L(Na, Vx, 4), L(Na, Vy, 20), L(Nb, Vx, 22), L(Na, Vx, 24), L(Nb, Vx, 8), L(Na, Vy, 16), L(Nb, Vy, 0),
  X(62), X(63), X(64), X(0), XN(62, Vy, 4), XN(63, Vx, 4), XN(64, Vx, 8), XN(1, Vx, 12),
  R(0), R(34), R(69), R(70), R(104), FL, DC >>

\* Delivery in pieces, exact decoding, limits.
PiecesCalls == <<
  L(Na, Vx, 4), L(Nb, Vx, 7), X(62), XN(62, Vy, 8), R(0), R(34), R(70),
  SL(33), SL(70), DV(1), FL, DC, DE(0), DE(1), DE(2) >>

\* The table alone: entries of 32, 34, 36, 70 and 71 octets against a maximum
\* of 104 and less.
TableCalls == <<
  TI(<<>>, <<>>), TI(<<>>, Vx), TI(Na, Vx), TI(Na, Vy), TI(Nb, <<120, 121, 122>>), TI(Na, Fill(112, 37)), TI(Nb, Fill(113, 72)),
  TU(0), TU(31), TU(32), TU(34), TU(67), TU(68), TU(70), TU(103), TU(104),
  TG(0), TG(1), TG(61), TG(62), TG(63), TG(64), TG(65), TG(66),
  TF(Na, Vx), TF(Na, Vy), TF(Nb, Vx), TF(<<>>, <<>>), TF(<<>>, Vx), TF(Method, Post), TF(Method, Vx), TS,
  TIt(0), TIt(1), TIt(2), TIt(3), TIt(4), TIt(5) >>

\* Octets nobody encoded, one at a time, over a small alphabet that reaches
\* every representation, string form and integer form.
JunkCalls == <<
  INJ(<<0>>), INJ(<<1>>), INJ(<<2>>), INJ(<<15>>), INJ(<<16>>), INJ(<<31>>), INJ(<<32>>), INJ(<<63>>), INJ(<<64>>),
  INJ(<<126>>), INJ(<<127>>), INJ(<<128>>), INJ(<<129>>), INJ(<<190>>), INJ(<<191>>), INJ(<<255>>), INJ(<<7>>),
  DC, DI >>
\* All octets.
AllCalls == [i \in 1..257 |-> IF i <= 256 THEN INJ(<<i - 1>>) ELSE DC]

\* Good and bad representations as whole pieces: what is refused, what is
\* delivered before, what is left.
ErrorCalls == <<
  INJ(<<64, 1, 97, 1, 120>>), INJ(<<64, 1, 98, 0>>), INJ(<<130>>), INJ(<<190>>), INJ(<<191>>), INJ(<<128>>),
  INJ(<<126, 0>>), INJ(<<16, 1, 97>>), INJ(<<0, 129, 255, 0>>), INJ(<<64, 129, 7>>), INJ(<<63, 7>>), INJ(<<63, 8>>),
  INJ(<<32>>), INJ(<<66>>), INJ(<<127, 128, 128, 128, 128>>), INJ(<<1>>), SL(38), SL(70), DC, DE(1), DI >>

\* Good, cut and bad representations of every kind, and exact decoding that
\* meets them in front of, at and behind its count.
ExactCalls == <<
  INJ(<<130>>), INJ(<<255>>), INJ(<<128>>), INJ(<<190>>), INJ(<<64, 1, 97, 1, 120>>), INJ(<<127>>), INJ(<<66, 129>>), INJ(<<2, 0>>), INJ(<<15>>),
  INJ(<<18, 0>>), INJ(<<16, 1>>), INJ(<<32>>), INJ(<<63, 7>>), INJ(<<63>>), INJ(<<63, 8>>), DE(1), DE(2), DE(3), DE(9), DI >>

\* Sizes and limits.
LimitCalls == <<
  L(Na, Vx, 4), L(Nb, Vy, 4), X(62), R(0), R(33), R(34), R(67), R(68), R(70), R(71),
  SL(0), SL(34), SL(70), SL(71), FL, DC, DE(1), DI, INJ(<<63, 3>>), INJ(<<63, 131, 0>>), INJ(<<63, 39>>), INJ(<<63, 40>>) >>

\* Every combination of flags, both entry points.
FlagCalls ==
  [i \in 1..104 |->
     IF i <= 32 THEN L(Na, Vx, i - 1)
     ELSE IF i <= 64 THEN L(Method, Vy, i - 33)
     ELSE IF i <= 80 THEN P(Nb, Vx, i - 65)
     ELSE IF i <= 96 THEN XN(62, Vy, i - 81)
     ELSE <<L(Na, Vx, 52), L(Method, Get, 24), L(Method, Get, 16), XN(2, Vx, 8), XN(63, Vx, 12), X(62), FL, DC>>[i - 96]]

\* Two instances side by side.
TwinCalls == <<
  SW(1, 104), SW(2, 70), L(Na, Vx, 4), L(Na, Vy, 22), L(Nb, Vx, 24), X(62), XN(62, Vy, 8), X(63), R(34), R(104), SL(34), SL(104), FL,
  DC, DE(1), INJ(<<0, 129>>), DI >>

\* Search: static and dynamic, name and full matches, duplicates.
FindCalls == <<
  L(Na, Vx, 20), L(Na, Vy, 20), L(Na, Vx, 16), L(Na, Vy, 24), L(Nb, Vx, 16), L(Method, Vx, 20), L(Method, Post, 20),
  L(Method, Vx, 24), L(Method, <<>>, 16), L(Accept, <<>>, 20), L(Accept, Vx, 20), P(Na, Vx, 4), P(Method, Post, 4),
  P(Na, Vy, 4), L(<<>>, Vx, 20), L(<<>>, <<>>, 20), R(0), R(34), R(104), FL, DC >>

\* Refused calls of every kind between good ones.
RefuseCalls == <<
  L(Na, Vx, 4), L(Nb, Vy, 20), XN(62, Vx, 0), R(0), X(0), X(62), X(63), X(64), X(1000000), XN(0, Vx, 4), XN(62, Vy, 4), XN(63, Vx, 6),
  XN(64, Vx, 4), XN(64, Vx, 8), XN(0, Vy, 0), XN(65, <<>>, 31), R(34), R(70), FL, DC >>

\* Integers at the boundaries of their prefixes.
IntSizes == <<0, 1, 29, 30, 31, 32, 33, 126, 127, 128, 157, 158, 159, 160, 286, 287, 16413, 16414, 16415, 16416, 16542, 16543,
              65535, 65536, 2097181, 2097182, 2097183, 268435454, 268435455, 268435456, 268435484, 268435485, 268435486>>
IntLens == <<0, 1, 62, 63, 64, 125, 126, 127, 128, 129, 253, 254, 255, 256, 300>>
IntCalls ==
  [i \in 1..33 |-> R(IntSizes[i])]
  \o [i \in 1..15 |-> L(Fill(97, IntLens[i]), Vx, 0)]
  \o [i \in 1..15 |-> L(Na, Fill(48, IntLens[i]), 8)]
  \o [i \in 1..15 |-> L(Na, Fill(1, IntLens[i]), 2)]
  \o [i \in 1..61 |-> X(i)]
  \o [i \in 1..61 |-> XN(i, Vx, 0)]
  \o [i \in 1..61 |-> XN(i, Vx, 8)]
  \o [i \in 1..61 |-> XN(i, Vx, 4)]
  \o <<FL, DC>>
Wide == <<4096, 0>>    \* 2^28
=============================================================================
