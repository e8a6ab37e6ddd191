------------------------------- MODULE Hpack --------------------------------
(***************************************************************************)
(* An HPACK encoder and decoder joined by a wire.                          *)
(*                                                                         *)
(* Each public library call is one action.  `reply` is what the caller of  *)
(* the last call observes; it is an output, never read by an action.       *)
(***************************************************************************)
EXTENDS HpackPrims, TLC

VARIABLES
  enc,    \* encoder: [tab, max]
  dec,    \* decoder: [tab, max, limit]
  wire,   \* octets emitted and not yet delivered to the decoder's buffer
  buf,    \* the decoder's input buffer
  due,    \* fields the octets in buf \o wire stand for, in order
  clean,  \* the octets in buf \o wire are exactly what the encoder emitted
  reply   \* the observation of the last call

hvars == <<enc, dec, wire, buf, due, clean, reply>>

NoReply == [res |-> "ok"]

-----------------------------------------------------------------------------
(* Flags of the encoder interface.                                           *)
Has(f, bit) == (f \div bit) % 2 = 1
HuffName(f) == Has(f, 1)
HuffValue(f) == Has(f, 2)
\* Incremental indexing takes precedence over never indexed.
Directive(f) == IF Has(f, 4) THEN "inc" ELSE IF Has(f, 8) THEN "never" ELSE "non"
BestFormat(f) == Has(f, 16)

-----------------------------------------------------------------------------
(* Encoder calls as functions: [res, bytes, enc, field].                     *)
Refused(e) == [res |-> "InvalidIndex", bytes |-> <<>>, enc |-> e, field |-> <<>>]
KeepTab(e, kind, entry) == IF kind = "inc" THEN Insert(e, entry) ELSE e

EncIndexed(e, i) ==
  LET n == U32ToInt(i)
  IN IF ~HasIndex(e, n) THEN Refused(e)
     ELSE [res |-> "ok", bytes |-> IntEncode(i, 7, 128), enc |-> e,
           field |-> <<<<At(e, n)[1], At(e, n)[2], 0>>>>]

EncIndexedName(e, i, v, f) ==
  LET n == U32ToInt(i)
      kind == Directive(f)
  IN IF ~HasIndex(e, n) THEN Refused(e)
     ELSE [res |-> "ok",
           bytes |-> IntEncode(i, PrefixOf(kind), MarkOf(kind)) \o StrEncode(v, HuffValue(f)),
           enc |-> KeepTab(e, kind, <<At(e, n)[1], v>>),
           field |-> <<<<At(e, n)[1], v, FlagOf(kind)>>>>]

EncPlain(e, n, v, f) ==
  LET kind == Directive(f)
  IN [res |-> "ok",
      bytes |-> <<MarkOf(kind)>> \o StrEncode(n, HuffName(f)) \o StrEncode(v, HuffValue(f)),
      enc |-> KeepTab(e, kind, <<n, v>>),
      field |-> <<<<n, v, FlagOf(kind)>>>>]

EncLiteral(e, n, v, f) ==
  IF ~BestFormat(f) THEN EncPlain(e, n, v, f)
  ELSE LET m == Find(e, n, v)
       IN IF m.index = 0 THEN EncPlain(e, n, v, f)
          ELSE IF m.full /\ Directive(f) # "never" THEN EncIndexed(e, U32(m.index))
          ELSE EncIndexedName(e, U32(m.index), v, f)

EncResize(e, s) ==
  [res |-> "ok", bytes |-> IntEncode(s, 5, 32), enc |-> SetMax(e, s), field |-> <<>>]

-----------------------------------------------------------------------------
(* The decoder as a function.  One field:                                    *)
(* [errs, n, dec, out]: errs empty on success.                               *)
DecodeField(d, b, pos) ==
  LET p == ParseField(b, pos, d)
  IN IF p.errs # {} THEN [errs |-> p.errs, n |-> 0, dec |-> d, out |-> <<>>]
     ELSE IF p.kind = "size"
     THEN IF U32Leq(U32(p.ref), d.limit)
          THEN [errs |-> {}, n |-> p.len, dec |-> SetMax(d, U32(p.ref)), out |-> <<>>]
          ELSE [errs |-> {"InvalidMaxDynamicSize"}, n |-> 0, dec |-> d, out |-> <<>>]
     ELSE [errs |-> {}, n |-> p.len,
           dec |-> IF p.kind = "inc" THEN Insert(d, <<p.name, p.value>>) ELSE d,
           out |-> <<<<p.name, p.value, FlagOf(p.kind)>>>>]

\* Decode until the buffer is empty, `limit` fields are out, or an error.
\* [errs, n, dec, out]
DecodeUpTo(d0, b, limit) ==
  LET \* a field takes at least one octet, so there are no more steps than octets
      One(a, x) ==
        IF a.stop \/ a.pos > Len(b) \/ a.k >= limit THEN a
        ELSE LET r == DecodeField(a.dec, b, a.pos)
             IN IF r.errs # {} THEN [a EXCEPT !.stop = TRUE, !.errs = r.errs]
                ELSE [a EXCEPT !.pos = @ + r.n, !.dec = r.dec, !.k = @ + Len(r.out), !.out = @ \o r.out]
      z == OutFold(One, [stop |-> FALSE, errs |-> {}, pos |-> 1, dec |-> d0, k |-> 0, out |-> <<>>], b)
  IN [errs |-> z.errs, n |-> z.pos - 1, dec |-> z.dec, out |-> z.out]
DecodeAll(d, b) == DecodeUpTo(d, b, Len(b) + 1)

-----------------------------------------------------------------------------
(* Initial states.                                                           *)
HpackInit(emax, dmax) ==
  /\ enc = [tab |-> <<>>, max |-> emax]
  /\ dec = [tab |-> <<>>, max |-> dmax, limit |-> dmax]
  /\ wire = <<>> /\ buf = <<>> /\ due = <<>> /\ clean = TRUE
  /\ reply = NoReply

DecoderVars == <<dec, buf>>

Emit(r) ==
  /\ enc' = r.enc
  /\ wire' = wire \o r.bytes
  /\ due' = due \o r.field
  /\ reply' = [res |-> r.res, bytes |-> r.bytes]
  /\ UNCHANGED <<dec, buf, clean>>

EncodeIndexed(i) == Emit(EncIndexed(enc, i))
EncodeIndexedName(i, v, f) == Emit(EncIndexedName(enc, i, v, f))
EncodeLiteral(n, v, f) == Emit(EncLiteral(enc, n, v, f))
EncodePlain(n, v, f) == Emit(EncPlain(enc, n, v, f))
ResizeTable(s) == Emit(EncResize(enc, s))

\* The user of the decoder changes the protocol limit.
SetLimit(s) ==
  /\ dec' = [dec EXCEPT !.limit = s]
  /\ reply' = NoReply
  /\ UNCHANGED <<enc, wire, buf, due, clean>>

\* k octets arrive.
Deliver(k) ==
  /\ k <= Len(wire)
  /\ buf' = buf \o Take(wire, k)
  /\ wire' = Drop(wire, k)
  /\ reply' = NoReply
  /\ UNCHANGED <<enc, dec, due, clean>>

\* Octets that no encoder of this stream emitted.
Inject(b) ==
  /\ buf' = buf \o b
  /\ clean' = FALSE
  /\ reply' = NoReply
  /\ UNCHANGED <<enc, dec, wire, due>>

\* The user drops the undecoded rest of the buffer.
Discard ==
  /\ clean' = (clean /\ buf = <<>>)
  /\ buf' = <<>>
  /\ reply' = NoReply
  /\ UNCHANGED <<enc, dec, wire, due>>

Absorb(r) ==
  /\ dec' = r.dec
  /\ buf' = Drop(buf, r.n)
  /\ due' = Drop(due, Min2(Len(r.out), Len(due)))
  /\ reply' = [res |-> IF r.errs = {} THEN "ok" ELSE "err", kinds |-> r.errs,
               n |-> r.n, fields |-> r.out, rest |-> Drop(buf, r.n)]
  /\ UNCHANGED <<enc, wire, clean>>

Decode == Absorb(DecodeAll(dec, buf))
DecodeExact(c) == Absorb(DecodeUpTo(dec, buf, c))

-----------------------------------------------------------------------------
(* Properties of the design.                                                 *)

TypeOK ==
  /\ \A t \in {enc, dec} : \A i \in DOMAIN t.tab : Len(t.tab[i]) = 2
  /\ U32Leq(<<0, 0>>, dec.limit)

\* C02
BothBounded == Bounded(enc) /\ Bounded(dec)

Rest == DecodeAll(dec, buf \o wire)

\* C01: decoding everything in flight yields the fields that are due and the
\* encoder's table, as long as the stream is intact and the limit allows the
\* size updates in flight.
InStep ==
  clean =>
    LET r == Rest
    IN r.errs # {"InvalidMaxDynamicSize"} =>
         /\ r.errs = {}
         /\ r.out = due
         /\ r.n = Len(buf \o wire)
         /\ r.dec.tab = enc.tab
         /\ r.dec.max = enc.max

\* C05, C10: a cut anywhere, retried after the rest arrived, changes nothing.
CutAnywhere ==
  LET whole == DecodeAll(dec, buf)
  IN \A k \in 0..Len(buf) :
       LET first == DecodeAll(dec, Take(buf, k))
           second == DecodeAll(first.dec, Drop(buf, first.n))
       IN /\ first.n + second.n = whole.n
          /\ first.out \o second.out = whole.out
          /\ second.dec = whole.dec
          /\ second.errs = whole.errs

\* C10: field by field is the same as all at once.
ExactIsPrefix ==
  LET whole == DecodeAll(dec, buf)
  IN \A c \in 0..(Len(whole.out) + 1) :
       LET r == DecodeUpTo(dec, buf, c)
       IN /\ r.out = Take(whole.out, Min2(c, Len(whole.out)))
          /\ r.n <= whole.n
          /\ (r.errs # {} => c > Len(whole.out))

\* C05: an error leaves table, maximum and the offending octets alone.
DecodeErrorAtomic ==
  [][ (reply'.res = "err" /\ "kinds" \in DOMAIN reply')
      => LET r == DecodeUpTo(dec, buf, Len(reply'.fields))
         IN /\ dec'.limit = dec.limit
            /\ buf' = Drop(buf, reply'.n)
            /\ buf' # <<>> ]_hvars

\* C02, C07: tables change by FIFO steps; the limit alone changes nothing.
EncoderFifo == [][FifoStep(enc, enc')]_hvars
\* C11: a refused encode changes nothing but the reply.
RefusalHasNoEffect ==
  [][reply'.res = "InvalidIndex" => UNCHANGED <<enc, dec, wire, buf, due>>]_hvars
\* C07: a decoder never adopts a size above its limit.
LimitRespected == [][dec'.max = dec.max \/ U32Leq(dec'.max, dec'.limit)]_hvars

-----------------------------------------------------------------------------
(* C08, C09: what the octets of one encode call say, read back by the        *)
(* decoder's own parser.                                                     *)
ReadsAs(e, bytes) == IF bytes = <<>> THEN NoField ELSE ParseField(bytes, 1, e)
NeverMeansNever(e, n, v, f) ==
  Directive(f) = "never" =>
     LET p == ReadsAs(e, EncLiteral(e, n, v, f).bytes)
     IN p.kind = "never" /\ p.name = n /\ p.value = v
BestMeansSame(e, n, v, f) ==
  LET r == EncLiteral(e, n, v, f)
      p == ReadsAs(e, r.bytes)
  IN /\ p.errs = {} /\ p.len = Len(r.bytes)
     /\ p.name = n /\ p.value = v
     /\ (p.kind = "indexed" => ~ \E i \in 1..(p.ref - 1) : At(e, i) = <<n, v>>)
=============================================================================
