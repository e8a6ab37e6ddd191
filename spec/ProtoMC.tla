------------------------------ MODULE ProtoMC -------------------------------
(***************************************************************************)
(* The streaming decoder under every history of feeds and decodes over a   *)
(* finite list of pieces.  Every transition is printed for the harness.    *)
(***************************************************************************)
EXTENDS Proto, Json

CONSTANTS Pieces, MaxHeld, MaxCalls, EmitOn,
          Decoders     \* how many there are

VARIABLES key, pbuf,
          all,     \* everything fed since the last discard (hidden)
          out,     \* all fields delivered for it (hidden)
          base,    \* what the decoder remembered then (hidden)
          reply, hist, lastc, murky,
          who,     \* which decoder the first five belong to
          others   \* the same of every other one

vars == <<key, pbuf, all, out, base, reply, hist, lastc, murky, who, others>>
Short(x) == [key |-> x.key, pbuf |-> x.pbuf]
View == <<key, pbuf, murky, who, [k \in DOMAIN others |-> Short(others[k])], Len(hist)>>
ViewNoDepth == <<key, pbuf, murky, who, [k \in DOMAIN others |-> Short(others[k])]>>

Calls == [i \in DOMAIN Pieces |-> [op |-> "pfeed", b |-> Pieces[i]]] \o <<[op |-> "pdec"], [op |-> "pdiscard"]>>
           \o [k \in 1..(IF Decoders = 1 THEN 0 ELSE Decoders) |-> [op |-> "pswitch", to |-> k]]

Init == /\ key = NoKey /\ base = NoKey /\ pbuf = <<>> /\ all = <<>> /\ out = <<>>
        /\ reply = [res |-> "none"] /\ hist = <<>> /\ lastc = 0 /\ murky = FALSE
        /\ who = 1
        /\ others = [k \in 2..Decoders |-> [key |-> NoKey, pbuf |-> <<>>, all |-> <<>>, out |-> <<>>, base |-> NoKey]]

Feed(b) ==
  /\ Len(pbuf) + Len(b) <= MaxHeld
  /\ pbuf' = pbuf \o b /\ all' = all \o b
  /\ reply' = [res |-> "fed"]
  /\ UNCHANGED <<key, out, base, murky, who, others>>
\* The user gives up on the octets held; the decoder is not told.
Discard ==
  /\ pbuf # <<>>
  /\ pbuf' = <<>> /\ all' = <<>> /\ out' = <<>> /\ base' = key
  /\ reply' = [res |-> "fed"]
  /\ UNCHANGED <<key, murky, who, others>>
Decode ==
  LET w == DecodeStream(pbuf, key)
  IN /\ pbuf # <<>>
     /\ reply' = IF w.res = "ok" THEN [res |-> "ok", n |-> w.n, fields |-> w.fields, rest |-> w.rest]
                 ELSE [res |-> "err", kinds |-> <<"InvalidInput">>, fields |-> w.fields, rest |-> w.rest]
     /\ key' = w.key /\ pbuf' = w.rest /\ out' = out \o w.fields /\ murky' = w.excess
     /\ UNCHANGED <<all, base, who, others>>
\* The calls that follow are made on another decoder.
Switch(k) ==
  /\ k # who
  /\ key' = others[k].key /\ pbuf' = others[k].pbuf /\ all' = others[k].all /\ out' = others[k].out /\ base' = others[k].base
  /\ who' = k
  /\ others' = [j \in (DOMAIN others \cup {who}) \ {k} |->
                  IF j = who THEN [key |-> key, pbuf |-> pbuf, all |-> all, out |-> out, base |-> base] ELSE others[j]]
  /\ reply' = [res |-> "fed"]
  /\ UNCHANGED murky

Step(i) == hist' = Append(hist, i) /\ lastc' = i
Next ==
  /\ Len(hist) < MaxCalls /\ ~murky
  /\ \/ /\ Len(pbuf) < MaxHeld
        /\ \E i \in 1..Len(Pieces) : Feed(Pieces[i]) /\ Step(i)
     \/ Decode /\ Step(Len(Pieces) + 1)
     \/ Discard /\ Step(Len(Pieces) + 2)
     \/ \E k \in 1..Decoders : Switch(k) /\ Step(Len(Pieces) + 2 + k)
Spec == Init /\ [][Next]_vars

ASSUME EmitOn => PrintT("#" \o ToJson([calls |-> Calls, first |-> [op |-> "pnew"], probe |-> 0]))
Emitted ==
  (EmitOn /\ ~murky') => PrintT("@" \o ToJson([h |-> hist, c |-> lastc', e |-> IF reply'.res = "fed" THEN [res |-> "ok"] ELSE reply', p |-> [x |-> 0]]))

-----------------------------------------------------------------------------
(* C17: the pieces do not matter.  Once decoded, what was delivered, what is *)
(* left and what is remembered are those of one call on everything.          *)
ChunkingIrrelevant ==
  [][(reply'.res # "fed" /\ ~murky') =>
       LET w == DecodeStream(all', base')
       IN out' = w.fields /\ pbuf' = w.rest /\ key' = w.key]_vars
\* C16, C18: nothing is lost, nothing is invented: delivered payloads, the
\* rest and the octets counted make up the input.
Counted ==
  [][reply'.res # "fed" =>
       LET before == Len(pbuf)
       IN reply'.res = "ok" => reply'.n = before - Len(pbuf')]_vars
\* C18: a refusal is repeated.
RefusedAgain ==
  [][(reply'.res # "fed" /\ reply'.res = "err" /\ ~murky') =>
       LET w == DecodeStream(pbuf', key') IN w.res = "err" /\ w.n = 0 /\ w.fields = <<>>]_vars
\* What has been read as a key is one.
KeyIsValid == key.wire = -1 \/ (ValidTag(key.tag) /\ key.wire \in {0, 1, 2, 5})

-----------------------------------------------------------------------------
One(s) == [i \in DOMAIN s |-> <<s[i]>>]
Run0(o, n) == [i \in 1..n |-> o]
\* Single octets: keys of every wire type, bad ones, lengths, continuations.
OctetPieces == One(<<0, 1, 2, 3, 8, 9, 10, 11, 13, 15, 26, 128, 255>>)
AllPieces == [i \in 1..256 |-> <<i - 1>>]

\* Pieces of good messages: keys, lengths and payloads, whole and in parts.
GoodPieces == <<
  <<8>>, <<16>>, <<9>>, <<10>>, <<18>>, <<13>>, <<1>>, <<2>>, <<5>>, <<128, 1>>, <<8, 150, 1>>, <<18, 2, 7, 7>>,
  <<26, 0>>, <<10, 129, 128, 0>>, Run0(8, 3), <<1, 2, 3, 4, 5, 6, 7, 8>>, <<61, 1, 2, 3, 4>>, <<130, 1, 3, 8>>, <<0>>, <<15>> >>
\* Pieces for two decoders side by side.
TwinPieces == << <<8>>, <<10>>, <<13, 1>>, <<2>>, <<128, 1>>, <<8, 150, 1>>, <<18, 2, 7>>, <<0>>, <<11>>, Run0(128, 11) >>
\* What comes behind a refusal: the octets that were refused are dropped, the
\* decoder goes on.  And equal fields in a row.
RefusePieces == <<
  <<10>>, <<9>>, <<0>>, <<1>>, <<7>>, Run0(128, 10) \o <<0>>, <<10>> \o Run0(128, 10) \o <<0>>, <<8>> \o Run0(255, 11), <<12>>, <<0, 0>>, <<18, 0>>, <<8, 5>>, <<8, 5, 8, 5>>,
  <<21, 1, 2, 3, 4, 21, 1, 2, 3, 4>>, <<9>> \o Run0(3, 8) \o <<9>> \o Run0(3, 8), <<18, 1, 6, 18, 1, 6>> >>
\* Longer pieces: limits of keys, varints and lengths, fixed widths in parts.
LongPieces == <<
  <<8>>, <<9>>, <<10>>, <<13>>, <<0>>, <<1>>, <<3>>, <<128>>,
  Run0(128, 8), Run0(255, 9), <<255, 255, 255, 255, 15>>, <<255, 255, 255, 255, 31>>, <<253, 255, 255, 255, 15>>,
  <<8, 150, 1>>, <<18, 2, 7, 7>>, <<26, 0>>, <<10, 128, 0>>, <<10, 129, 128, 0>>, Run0(7, 4), <<1, 2, 3, 4, 5, 6, 7, 8>>,
  <<10, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<12>>, <<14, 0>>, <<128, 128, 0>> >>
=============================================================================
