----------------------------- MODULE HpackTrace -----------------------------
(***************************************************************************)
(* Decides whether a recorded execution is a behaviour of HpackCalls.      *)
(*                                                                         *)
(* A line of the trace is a call with the observation in field o.  The     *)
(* call is made on the specification and the observation is compared with  *)
(* the reply.  A difference is named by its aspects, so that it can be     *)
(* attributed to properties.  Where the specification can follow what the  *)
(* code did (octets that mean the same field, a wrong count), it goes on;  *)
(* otherwise the rest of the session is skipped.  A session begins with    *)
(* the call new.                                                           *)
(***************************************************************************)
EXTENDS HpackCalls, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxReports == 40

VARIABLES l,      \* the next line
          skip,   \* the session cannot be followed any more
          bad     \* differences so far

tvars == <<hvars, tbl, who, others, l, skip, bad>>

-----------------------------------------------------------------------------
IsEncode(c) == c.op \in {"enc_lit", "enc_plain", "enc_idx", "enc_idxname", "resize"}
IsDecode(c) == c.op \in {"decode", "decode_exact"}
If(b, a) == IF b THEN {a} ELSE {}

\* How the octets of an encode call differ from the expected ones, both read
\* against the table the receiver has at this point.
BytesDiffer(e, want, got) ==
  IF got = <<>> THEN {"garbled"}
  ELSE LET w == ParseField(want, 1, e)
           g == ParseField(got, 1, e)
       IN IF g.errs # {} \/ g.len # Len(got) THEN {"garbled"}
          ELSE IF w.kind = "size"
          THEN IF g.kind # "size" THEN {"garbled", "repr"}
               ELSE IF g.ref # w.ref THEN {"upval"} ELSE {"canon"}
          ELSE LET d == If(g.kind # w.kind, "repr")
                        \cup If(g.ref # w.ref, "ref")
                        \cup If(g.hname # w.hname /\ g.ref = 0 /\ w.ref = 0, "huff")
                        \cup If(g.hvalue # w.hvalue /\ g.kind # "indexed" /\ w.kind # "indexed", "huff")
                        \cup If(g.kind = "size" \/ g.name # w.name \/ g.value # w.value, "mean")
               IN IF d = {} THEN {"canon"} ELSE d

EncodeDiffers(c, e, want, o) ==
  IF o.res # want.res
  THEN {"encres"} \cup If(~o.kept, "kept") \cup If(o.res # "ok" /\ o.bytes # <<>>, "leak")
  ELSE If(~o.kept, "kept")
       \cup IF o.bytes = want.bytes THEN {}
            ELSE IF want.res # "ok" THEN {"leak"}
            \* sizes that no integer of five octets can carry
            ELSE IF ParseField(want.bytes, 1, e).errs # {} THEN {"garbled"}
            ELSE BytesDiffer(e, want.bytes, o.bytes)

NamesOnly(f) == [i \in DOMAIN f |-> <<f[i][1], f[i][2]>>]
DecodeDiffers(want, o) ==
  If(o.res # want.res, "decres")
  \cup If(o.res = "err" /\ want.res = "err" /\ o.kind \notin want.kinds, "kind")
  \cup If(o.res = "ok" /\ want.res = "ok" /\ o.n # want.n, "n")
  \cup If(o.rest # want.rest, "rest")
  \cup If(~o.kept, "dkept")
  \cup IF o.fields = want.fields THEN {}
       ELSE IF NamesOnly(o.fields) = NamesOnly(want.fields) THEN {"flags"}
       ELSE {"fields"}

ProbeDiffers(want, o) ==
  If(o.dtab # want.dtab, "dtab") \cup If(o.dmax # want.dmax, "dmax")
  \cup If(o.elen # want.elen, "elen") \cup If(o.emax # want.emax, "emax")
  \cup If(o.efind # want.efind, "efind")

StatDiffers(want, o) ==
  If(o.len # want.len, "tlen") \cup If(o.dlen # want.dlen, "tdlen")
  \cup If(o.size # want.size, "tsize") \cup If(o.max # want.max, "tmax")

Differs(c, e, want, o) ==
  IF o.res \in {"panic", "hang", "abort"} THEN {"panic"}
  ELSE IF IsEncode(c) THEN EncodeDiffers(c, e, want, o)
  ELSE IF IsDecode(c) THEN DecodeDiffers(want, o)
  ELSE IF c.op = "probe" THEN ProbeDiffers(want, o)
  ELSE IF c.op = "t_stat" THEN StatDiffers(want, o)
  ELSE IF c.op = "t_get" THEN If(o.entry # want.entry, "tget")
  ELSE IF c.op = "t_find" THEN If(o.index # want.index \/ o.full # want.full, "tfind")
  ELSE IF c.op \in {"t_iter", "t_dyn"} THEN If(o.entries # want.entries, "titer")
  ELSE {}

\* After these the specification still knows where it is.
Harmless == {"kind", "n", "flags", "dkept", "kept", "tget", "tfind"}
Followed == Harmless \cup {"repr", "ref", "huff", "canon"}

\* The encoder is taken to have done what its octets say.
Adopted(e, got) ==
  LET g == ParseField(got, 1, e)
  IN IF g.kind = "inc" THEN Insert(e, <<g.name, g.value>>) ELSE e

Report(c, d, want) ==
  PrintT("MISMATCH " \o ToJson([line |-> l, aspects |-> SetToSeq(d), op |-> c.op, want |-> want, got |-> c.o]))

-----------------------------------------------------------------------------
TraceInit ==
  /\ HpackInit(<<0, 4096>>, <<0, 4096>>) /\ TableInit(<<0, 4096>>)
  /\ l = 2 /\ skip = FALSE /\ bad = 0

Pass == UNCHANGED <<hvars, tbl, who, others, skip, bad>>

Judge(c) ==
  LET r == IF IsEncode(c)
           THEN CASE c.op = "enc_lit" -> EncLiteral(enc, c.n, c.v, c.f)
                  [] c.op = "enc_plain" -> EncPlain(enc, c.n, c.v, c.f)
                  [] c.op = "enc_idx" -> EncIndexed(enc, c.i)
                  [] c.op = "enc_idxname" -> EncIndexedName(enc, c.i, c.v, c.f)
                  [] c.op = "resize" -> EncResize(enc, c.s)
           ELSE [res |-> "none"]
      d == IF IsEncode(c) /\ c.o.res \notin {"panic", "hang", "abort"}
           THEN EncodeDiffers(c, enc, [res |-> r.res, bytes |-> r.bytes], c.o) ELSE {}
  IN IF d # {} /\ d \subseteq Followed /\ ~(d \subseteq Harmless)
     THEN \* follow the octets the code emitted
          /\ Report(c, d, [res |-> r.res, bytes |-> r.bytes])
          /\ enc' = IF c.op = "resize" THEN r.enc ELSE Adopted(enc, c.o.bytes)
          /\ wire' = wire \o c.o.bytes
          /\ due' = due \o r.field
          /\ reply' = NoReply
          /\ bad' = bad + 1
          /\ UNCHANGED <<dec, buf, clean, tbl, who, others, skip>>
     ELSE /\ Do(c)
          /\ LET x == Differs(c, enc, reply', c.o)
             IN IF x = {} THEN UNCHANGED <<skip, bad>>
                ELSE /\ Report(c, x, reply')
                     /\ bad' = bad + 1
                     /\ skip' = ~(x \subseteq Harmless)

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET c == Trace[l]
     IN IF bad >= MaxReports \/ (skip /\ c.op # "new") THEN Pass
        ELSE IF c.op = "new"
        THEN New(c) /\ skip' = FALSE /\ UNCHANGED bad
        ELSE Judge(c)
  /\ (l = Len(Trace)) => PrintT("TRACE-END " \o ToString(Len(Trace)))

TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* One state per line but the first, and all lines consumed.
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
