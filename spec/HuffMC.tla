------------------------------- MODULE HuffMC -------------------------------
(***************************************************************************)
(* The encoder and the decoder of the Huffman code as machines that take   *)
(* one octet at a time.  Their states are the pending bits, so TLC visits  *)
(* every state and, from each, every octet; the printed lines are a        *)
(* transition cover of both machines for the harness to replay.            *)
(***************************************************************************)
EXTENDS Huffman, Json, TLC

CONSTANTS Side, EmitOn, Octets

VARIABLES m,        \* the machine's state
          input,    \* what was fed so far (hidden)
          output    \* what came out so far (hidden)

View == m
Octet == 0..(Octets - 1)

\* The bit automaton, for the harness to walk.
ASSUME EmitOn /\ Side = "dec" => PrintT("#" \o ToJson([step |-> Step, end |-> EndNode]))
ASSUME EmitOn /\ Side = "enc" => PrintT("#" \o ToJson([calls |-> <<>>]))

Init == /\ m = IF Side = "dec" THEN [node |-> 1, err |-> FALSE] ELSE [cur |-> 0, n |-> 0]
        /\ input = <<>> /\ output = <<>>

Feed(o) ==
  IF Side = "dec"
  THEN /\ ~m.err
       /\ LET st == DecOctet([node |-> m.node, out |-> <<>>, err |-> FALSE], o)
          IN /\ m' = [node |-> st.node, err |-> st.err]
             /\ output' = output \o st.out
  ELSE LET st == FoldLeft(PutBits, [out |-> <<>>, cur |-> m.cur, n |-> m.n], Pieces[o])
       IN m' = [cur |-> st.cur, n |-> st.n] /\ output' = output \o st.out

Next == \E o \in Octet : Feed(o) /\ input' = Append(input, o)
Spec == Init /\ [][Next]_<<m, input, output>>

\* What a call on the octets so far returns.
Answer(mm, out) ==
  IF Side = "dec"
  THEN LET ok == ~mm.err /\ EndNode[mm.node]
       IN [res |-> IF ok THEN "ok" ELSE "err", out |-> IF ok THEN out ELSE <<>>]
  ELSE [res |-> "ok",
        bytes |-> IF mm.n = 0 THEN out
                  ELSE Append(out, mm.cur * Pow2[8 - mm.n] + Pow2[8 - mm.n] - 1)]

\* A decoder line is replayed at all speeds and continued by suffixes; an
\* encoder line is replayed, and its octets are decoded at all speeds.
Line(op, e) == PrintT("!" \o ToJson([op |-> op, e |-> e]))
Emitted ==
  EmitOn =>
    LET a == Answer(m', output')
    IN IF Side = "dec"
       THEN Line([op |-> "hdec", b |-> input', walk |-> 1], a)
       ELSE /\ Line([op |-> "henc", b |-> input'], a)
            /\ Line([op |-> "hdec", b |-> a.bytes], [res |-> "ok", out |-> input'])

-----------------------------------------------------------------------------
(* C12, C13: both directions are inverse to each other; a strict decoder     *)
(* accepts nothing but encodings.                                            *)
MachineIsFunction ==
  IF Side = "dec"
  THEN LET d == HuffDecode(input)
       IN d.ok = (Answer(m, output).res = "ok") /\ d.out = Answer(m, output).out
  ELSE Answer(m, output).bytes = HuffEncode(input)
BackAgain ==
  IF Side = "dec"
  THEN LET d == HuffDecode(input) IN d.ok => HuffEncode(d.out) = input
  ELSE HuffDecode(HuffEncode(input)) = [ok |-> TRUE, out |-> input]
ShortPadding == Side = "enc" => m.n < 8
=============================================================================
