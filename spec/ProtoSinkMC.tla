---------------------------- MODULE ProtoSinkMC -----------------------------
(***************************************************************************)
(* The encoder and its sink as two processes.  The encoder offers the      *)
(* encoding in pieces of any size, in order, and offers a piece's rest     *)
(* again until it is taken; the sink answers every offer as it likes.      *)
(* TLC checks that this discipline gives the relation of ProtoSink, and    *)
(* prints the sinks it met as scripts for the real encoder.                *)
(***************************************************************************)
EXTENDS Proto, ProtoSink, Json

CONSTANTS MaxScript, EmitOn

VARIABLES call,     \* the encode call
          whole,    \* its reply on an ordinary buffer
          taken,    \* what the sink took
          offer,    \* length of the piece on offer, 0 between offers
          script,   \* the sink's answers so far
          failed, status

vars == <<call, whole, taken, offer, script, failed, status>>

P(t, tag, v) == [op |-> "pencf", t |-> t, tag |-> tag, v |-> v]
SinkCalls ==
  {P("bool", U32(1), <<1>>), P("int32", U32(16), <<255, 255, 255, 255>>), P("uint64", U32(2), <<200, 1, 0, 0, 0, 0, 0, 0>>),
   P("sint32", U32(3), <<44, 1, 0, 0>>), P("float", U32(4), <<0, 0, 128, 63>>), P("double", U32(2048), <<1, 2, 3, 4, 5, 6, 7, 8>>),
   P("bytes", U32(1), <<>>), P("bytes", U32(1), <<7, 8, 9>>), P("int64_vec", U32(5), <<>>),
   P("uint32_vec", U32(5), <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>>>), P("bool_vec", U32(1), <<<<1>>, <<0>>>>),
   P("fixed32_vec", U32(17), <<<<1, 2, 3, 4>>>>), P("bool", <<0, 0>>, <<1>>), P("bytes", <<8192, 0>>, <<1>>),
   P("uint32_vec", <<0, 0>>, <<>>)}

Init == /\ call \in SinkCalls
        /\ whole = EncodeReply(call.t, call.tag, call.v)
        /\ taken = <<>> /\ offer = 0 /\ script = <<>> /\ failed = FALSE
        /\ status = IF whole.res = "ok" THEN "writing" ELSE whole.res

Left == Len(whole.bytes) - Len(taken)
Same == UNCHANGED <<call, whole>>
Offer(k) == /\ status = "writing" /\ offer = 0 /\ k <= Left
            /\ offer' = k /\ UNCHANGED <<taken, script, failed, status>> /\ Same
Answer(a) ==
  /\ status = "writing" /\ offer > 0
  /\ script' = Append(script, a)
  /\ IF a > 0
     THEN LET n == Min2(a, offer)
          IN /\ taken' = taken \o SubSeq(whole.bytes, Len(taken) + 1, Len(taken) + n)
             /\ offer' = offer - n /\ UNCHANGED <<failed, status>>
     ELSE IF a = -1 THEN UNCHANGED <<taken, offer, failed, status>>
     ELSE failed' = TRUE /\ status' = "err" /\ UNCHANGED <<taken, offer>>
  /\ Same
Finish == /\ status = "writing" /\ offer = 0 /\ Left = 0
          /\ status' = "ok" /\ UNCHANGED <<taken, offer, script, failed>> /\ Same

Next == \/ \E k \in {1, 2, Left} : k > 0 /\ Offer(k)
        \/ Len(script) < MaxScript /\ \E a \in {-2, -1, 0, 1, 3} : Answer(a)
        \/ Finish
Spec == Init /\ [][Next]_vars

\* C21 for the design: whenever the call is over, the relation holds.
Truthful ==
  status # "writing" =>
    SinkVerdict(whole, [res |-> status, n |-> IF status = "ok" THEN Len(taken) ELSE 0, bytes |-> taken, failed |-> failed]) = {}
AlwaysPrefix == IsPrefix(taken, whole.bytes)

\* Scripts, once each: when they grow.
ASSUME EmitOn => PrintT("#{}")
Emitted ==
  (EmitOn /\ (script' # script \/ status' # status)) =>
    PrintT("?" \o ToJson([op |-> "pencf", t |-> call.t, tag |-> call.tag, v |-> call.v, via |-> Len(script) % 3, script |-> script',
                           kind |-> (Len(whole.bytes) + Len(taken) + 7 * Len(script)) % 16]))
=============================================================================
