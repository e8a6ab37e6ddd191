----------------------------- MODULE ProtoTrace -----------------------------
(***************************************************************************)
(* Decides recorded protobuf calls.  Encodings, conversions and writes to  *)
(* a sink are judged by themselves; the streaming decoder is followed.     *)
(***************************************************************************)
EXTENDS Proto, ProtoSink, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxReports == 40

VARIABLES l, skip, bad,
          key,     \* the decoder's memory
          pbuf,    \* octets fed and not consumed
          who,     \* the number of the decoder these belong to
          others   \* the same of every other decoder

tvars == <<l, skip, bad, key, pbuf, who, others>>
If(b, a) == IF b THEN {a} ELSE {}

EncDiffers(c) ==
  LET w == EncodeReply(c.t, c.tag, c.v)
  IN If(c.o.res # w.res, "pres") \cup If(~c.o.kept, "pkept")
     \cup If(c.o.res # "ok" /\ c.o.bytes # <<>>, "pleak")
     \cup (IF c.o.res = "ok" /\ w.res = "ok"
           THEN If(c.o.kept /\ c.o.bytes # w.bytes, "pbytes") \cup If(c.o.n # w.n, "pn")
           ELSE {})

DecDiffers(c, w) ==
  If(c.o.res # w.res, "pdecres")
  \cup If(c.o.res = "err" /\ w.res = "err" /\ c.o.kind # "InvalidInput", "pkind")
  \cup If(c.o.res = "ok" /\ w.res = "ok" /\ c.o.n # w.n, "pn2")
  \cup If(c.o.fields # w.fields, "pfields") \cup If(c.o.rest # w.rest, "prest")
  \cup If(~c.o.kept, "pdkept")

LitDiffers(c) ==
  LET w == Convert(c.t, c.to, c.b) IN If(~w.murky /\ c.o.v # w.v, "plit")

TypDiffers(c) ==
  LET w == TypOf(c.x)
  IN If(c.o.typ[1] # w \/ (w # -1 /\ c.o.typ[2] # w), "ptyp")

\* A call that makes others before it is done, and all of them one by one: the
\* observations have to be the same.
NestDiffers(c) ==
  If(c.o.outer[1] # c.o.outer[2] \/ c.o.inner[1] # c.o.inner[2], "nested")

SinkDiffers(c) == SinkVerdict(EncodeReply(c.t, c.tag, c.v), c.o)

Harmless == {"pkind", "pn2", "pdkept"}
Hurt(c) == c.o.res \in {"panic", "hang", "abort"}
Report(c, d) ==
  PrintT("MISMATCH " \o ToJson([line |-> l, aspects |-> SetToSeq(d), op |-> c.op, got |-> c.o]))
Note(c, d) == IF d = {} THEN UNCHANGED bad ELSE Report(c, d) /\ bad' = bad + 1

Alone(c) ==
  /\ UNCHANGED <<skip, key, pbuf, who, others>>
  /\ Note(c, IF Hurt(c) THEN {"panic"}
             ELSE CASE c.op = "penc" -> EncDiffers(c)
                    [] c.op = "lit" -> LitDiffers(c)
                    [] c.op = "ptyp" -> TypDiffers(c)
                    [] c.op = "pencf" -> SinkDiffers(c)
                    [] c.op = "nest" -> NestDiffers(c))

Switch(c) ==
  LET next == IF c.to \in DOMAIN others THEN others[c.to] ELSE [key |-> NoKey, pbuf |-> <<>>]
  IN /\ key' = next.key /\ pbuf' = next.pbuf /\ who' = c.to
     /\ others' = [j \in (DOMAIN others \cup {who}) \ {c.to} |-> IF j = who THEN [key |-> key, pbuf |-> pbuf] ELSE others[j]]
     /\ UNCHANGED <<skip, bad>>

Stream(c) ==
  IF c.op = "pnew" THEN key' = NoKey /\ pbuf' = <<>> /\ skip' = FALSE /\ who' = 1 /\ others' = <<>> /\ UNCHANGED bad
  ELSE IF c.op = "pswitch" THEN Switch(c)
  ELSE
  UNCHANGED <<who, others>> /\
  CASE c.op = "prenew" -> key' = NoKey /\ pbuf' = <<>> /\ UNCHANGED <<skip, bad>>
    [] c.op = "pfeed" -> pbuf' = pbuf \o c.b /\ UNCHANGED <<key, skip, bad>>
    [] c.op = "pdiscard" -> pbuf' = <<>> /\ UNCHANGED <<key, skip, bad>>
    [] OTHER ->
         IF Hurt(c) THEN Note(c, {"panic"}) /\ skip' = TRUE /\ UNCHANGED <<key, pbuf>>
         ELSE LET w == DecodeStream(pbuf, key)
                  d == IF w.excess THEN {} ELSE DecDiffers(c, w)
              IN /\ Note(c, d)
                 /\ skip' = (w.excess \/ ~(d \subseteq Harmless))
                 /\ key' = w.key /\ pbuf' = w.rest

Init == l = 2 /\ skip = FALSE /\ bad = 0 /\ key = NoKey /\ pbuf = <<>> /\ who = 1 /\ others = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET c == Trace[l]
     IN IF bad >= MaxReports THEN UNCHANGED <<skip, bad, key, pbuf, who, others>>
        ELSE IF c.op \in {"penc", "lit", "ptyp", "pencf", "nest"} THEN Alone(c)
        ELSE IF skip /\ c.op # "pnew" THEN UNCHANGED <<skip, bad, key, pbuf, who, others>>
        ELSE Stream(c)
  /\ (l = Len(Trace)) => PrintT("TRACE-END " \o ToString(Len(Trace)))
TraceSpec == Init /\ [][Next]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
