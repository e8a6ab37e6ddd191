------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* The proto3 wire format: scalars, packed vectors, octet strings, field   *)
(* keys; the streaming decoder; conversion of payloads to values.          *)
(*                                                                         *)
(* A value of a scalar type is the tuple of its octets, least significant  *)
(* first: one for bool, four or eight for the others.  A tag is a 32 bit   *)
(* pair.                                                                   *)
(***************************************************************************)
EXTENDS Bytes, TLC

Varint == 0
Fixed64 == 1
Delimited == 2
Fixed32 == 5

Scalars == {"bool", "int32", "int64", "uint32", "uint64", "float", "double", "sint32", "sint64",
            "fixed32", "fixed64", "sfixed32", "sfixed64"}
Width(t) == CASE t = "bool" -> 1
              [] t \in {"int32", "uint32", "float", "sint32", "fixed32", "sfixed32"} -> 4
              [] OTHER -> 8
WireType(t) == CASE t \in {"float", "fixed32", "sfixed32"} -> Fixed32
                 [] t \in {"double", "fixed64", "sfixed64"} -> Fixed64
                 [] t \in Scalars -> Varint
                 [] OTHER -> Delimited
Vectors == {t \o "_vec" : t \in Scalars}
ElementOf == [v \in Vectors |-> CHOOSE t \in Scalars : t \o "_vec" = v]
Types == Scalars \cup Vectors \cup {"bytes"}

-----------------------------------------------------------------------------
(* Encoding.                                                                 *)
LebOf(b) == Leb(Digits(b))
IntOctets(n) == U32Octets(U32(n))                \* 0 <= n < 2^31

ZigZag(b) == IF IsNegative(b) THEN Complement(ShiftLeft(b, 1)) ELSE ShiftLeft(b, 1)
UnZigZag(b) == IF b[1] % 2 = 1 THEN Complement(ShiftRight(b, 1)) ELSE ShiftRight(b, 1)

EncodeScalar(t, v) ==
  CASE t = "bool" -> v
    [] t = "int32" -> LebOf(SignExtend(v, 8))
    [] t \in {"int64", "uint32", "uint64"} -> LebOf(v)
    [] t \in {"sint32", "sint64"} -> LebOf(ZigZag(v))
    [] OTHER -> v

ValidTag(tag) == tag # <<0, 0>> /\ tag[1] < 8192
KeyOctets(tag, wire) ==
  LET k == ShiftLeft(U32Octets(tag), 3)
  IN LebOf([k EXCEPT ![1] = @ + wire])

Payload(t, v) ==
  CASE t = "bytes" -> v
    [] t \in Vectors -> OutFold(LAMBDA a, x : [a EXCEPT !.out = @ \o EncodeScalar(ElementOf[t], x)], [out |-> <<>>], v).out
    [] OTHER -> EncodeScalar(t, v)
EncodeField(t, tag, v) ==
  LET p == Payload(t, v)
  IN KeyOctets(tag, WireType(t)) \o (IF WireType(t) = Delimited THEN LebOf(IntOctets(Len(p))) ELSE <<>>) \o p

\* The reply of an encode call: the refusal comes before anything is written.
EncodeReply(t, tag, v) ==
  IF ~ValidTag(tag) THEN [res |-> "InvalidTag", n |-> 0, bytes |-> <<>>]
  ELSE LET b == EncodeField(t, tag, v) IN [res |-> "ok", n |-> Len(b), bytes |-> b]

-----------------------------------------------------------------------------
(* A varint from position at on: it may be incomplete (more), have more      *)
(* than ten octets (bad), or be there.  Bits beyond the 64th are outside     *)
(* the specification (excess).                                               *)
ReadVarint(b, at) ==
  LET end == Min2(Len(b), at + 9)
      last == {i \in at..end : b[i] < 128}
  IN IF last = {}
     THEN [st |-> IF Len(b) - at + 1 >= 10 THEN "bad" ELSE "more", len |-> 0, v |-> ZeroOctets(8), excess |-> FALSE]
     ELSE LET n == Min(last) - at + 1
          IN [st |-> "ok", len |-> n,
              v |-> Undigits([k \in 1..n |-> b[at + k - 1] % 128], 8),
              excess |-> n = 10 /\ b[at + 9] > 1]

\* The wire type a number (eight octets) names; -1: none.
TypOf(x) == IF Drop(x, 1) = ZeroOctets(7) /\ x[1] \in {Varint, Fixed64, Delimited, Fixed32} THEN x[1] ELSE -1

\* A key: tag and wire type, or what is wrong with it.
ReadKey(b, at) ==
  LET x == ReadVarint(b, at)
      wire == x.v[1] % 8
      tag == OctetsU32(ShiftRight(Take(x.v, 4), 3))
  IN IF x.st # "ok" THEN [st |-> x.st, len |-> 0, tag |-> <<0, 0>>, wire |-> 0, excess |-> FALSE]
     ELSE [st |-> IF Drop(x.v, 4) # ZeroOctets(4) \/ tag = <<0, 0>> \/ wire \notin {Varint, Fixed64, Delimited, Fixed32}
                  THEN "bad" ELSE "ok",
           len |-> x.len, tag |-> tag, wire |-> wire, excess |-> x.excess]

-----------------------------------------------------------------------------
(* The streaming decoder.  Between calls it remembers the key it has read    *)
(* and, for length-delimited fields, the length (-1: none).                  *)
NoKey == [tag |-> <<0, 0>>, wire |-> -1, len |-> -1]

\* One element of the stream from position at on: the new memory, the octets
\* used, the field that became complete.
Element(b, at, k) ==
  LET left == Len(b) - at + 1
      Blocked(st) == [st |-> st, key |-> k, used |-> 0, field |-> <<>>, excess |-> FALSE]
      Whole(n) == [st |-> "ok", key |-> NoKey, used |-> n, field |-> <<<<k.tag, k.wire, SubSeq(b, at, at + n - 1)>>>>, excess |-> FALSE]
  IN CASE k.wire = -1 ->
            LET x == ReadKey(b, at)
            IN IF x.st # "ok" THEN [Blocked(x.st) EXCEPT !.excess = x.excess]
               ELSE [st |-> "ok", key |-> [tag |-> x.tag, wire |-> x.wire, len |-> -1], used |-> x.len, field |-> <<>>,
                     excess |-> x.excess]
       [] k.wire = Varint ->
            LET x == ReadVarint(b, at)
            IN IF x.st # "ok" THEN Blocked(x.st) ELSE [Whole(x.len) EXCEPT !.excess = x.excess]
       [] k.wire = Fixed32 -> IF left >= 4 THEN Whole(4) ELSE Blocked("more")
       [] k.wire = Fixed64 -> IF left >= 8 THEN Whole(8) ELSE Blocked("more")
       [] k.wire = Delimited /\ k.len = -1 ->
            LET x == ReadVarint(b, at)
            IN IF x.st # "ok" THEN Blocked(x.st)
               ELSE [st |-> "ok", key |-> [k EXCEPT !.len = OctetsToInt(x.v)], used |-> x.len, field |-> <<>>,
                     excess |-> x.excess]
       [] OTHER -> IF left >= k.len THEN Whole(k.len) ELSE Blocked("more")

\* All elements there are.  A key and a length take an octet each and what
\* follows may be empty: three elements for two octets.
DecodeStream(b, key) ==
  LET Step(a, x) ==
        IF a.st # "ok" THEN a
        ELSE LET e == Element(b, a.at, a.key)
             IN [st |-> e.st, at |-> a.at + e.used, key |-> e.key, excess |-> a.excess \/ e.excess,
                 out |-> IF e.field = <<>> THEN a.out ELSE a.out \o e.field]
      z == OutFold(Step, [st |-> "ok", at |-> 1, key |-> key, excess |-> FALSE, out |-> <<>>], b \o b \o <<0>>)
  IN [res |-> IF z.st = "bad" THEN "err" ELSE "ok", n |-> z.at - 1, fields |-> z.out,
      rest |-> SubSeq(b, z.at, Len(b)), key |-> z.key, excess |-> z.excess]

-----------------------------------------------------------------------------
(* Conversion of a payload, taken to be of type t, to a target type.         *)
Sources ==
  [bool |-> {"bool"}, i32 |-> {"int32", "sint32", "sfixed32"}, i64 |-> {"int64", "sint64", "sfixed64"},
   u32 |-> {"uint32", "fixed32"}, u64 |-> {"uint64", "fixed64"}, f32 |-> {"float"}, f64 |-> {"double"}]
ScalarTargets == DOMAIN Sources
VectorTargets == {x \o "_vec" : x \in ScalarTargets}
TargetElement == [v \in VectorTargets |-> CHOOSE x \in ScalarTargets : x \o "_vec" = v]
TargetWidth(x) == CASE x = "bool" -> 1 [] x \in {"i32", "u32", "f32"} -> 4 [] OTHER -> 8

\* A value of type t at position at: [ok, len, v, murky].
ReadScalar(t, b, at) ==
  IF WireType(t) = Varint
  THEN LET x == ReadVarint(b, at)
       IN [ok |-> x.st = "ok", len |-> x.len,
           v |-> CASE t = "bool" -> <<IF x.v = ZeroOctets(8) THEN 0 ELSE 1>>
                   [] t \in {"int32", "uint32"} -> Take(x.v, 4)
                   [] t = "sint32" -> UnZigZag(Take(x.v, 4))
                   [] t = "sint64" -> UnZigZag(x.v)
                   [] OTHER -> x.v,
           \* nobody says what these mean
           murky |-> x.excess \/ (t = "sint32" /\ Drop(x.v, 4) # ZeroOctets(4))]
  ELSE LET w == Width(t)
           ok == Len(b) - at + 1 >= w
       IN [ok |-> ok, len |-> w, v |-> IF ok THEN SubSeq(b, at, at + w - 1) ELSE ZeroOctets(w), murky |-> FALSE]

\* A vector is all elements or nothing.  Where the elements end does not depend
\* on their values.
ElementEnds(t, b) ==
  IF WireType(t) = Varint
  THEN LET last == SelectSeq([i \in DOMAIN b |-> i], LAMBDA i : b[i] < 128)
       IN IF b # <<>> /\ b[Len(b)] >= 128 THEN Append(last, Len(b)) ELSE last
  ELSE LET w == Width(t) IN [i \in 1..((Len(b) + w - 1) \div w) |-> i * w]
ReadVector(t, b) ==
  LET ends == ElementEnds(t, b)
      \* SelectSeq makes TLC evaluate every element once
      xs == SelectSeq([i \in DOMAIN ends |-> ReadScalar(t, b, IF i = 1 THEN 1 ELSE ends[i - 1] + 1)], LAMBDA x : TRUE)
  IN IF \E i \in DOMAIN ends : ~xs[i].ok THEN [v |-> <<>>, murky |-> FALSE]
     ELSE [v |-> [i \in DOMAIN ends |-> xs[i].v], murky |-> \E i \in DOMAIN ends : xs[i].murky]

\* Well-formed UTF-8 (Unicode, table 3-7).  The state says how many octets the
\* character still needs and between which bounds the next one lies; -1 once
\* something is wrong.
Utf8Step(st, c) ==
  LET Need(n, lo, hi) == [left |-> n, lo |-> lo, hi |-> hi]
  IN CASE st.left > 0 -> IF c >= st.lo /\ c <= st.hi THEN Need(st.left - 1, 128, 191) ELSE Need(-1, 0, 0)
       [] st.left < 0 -> st
       [] c < 128 -> st
       [] c \in 194..223 -> Need(1, 128, 191)
       [] c = 224 -> Need(2, 160, 191)
       [] c \in (225..236) \cup {238, 239} -> Need(2, 128, 191)
       [] c = 237 -> Need(2, 128, 159)
       [] c = 240 -> Need(3, 144, 191)
       [] c \in 241..243 -> Need(3, 128, 191)
       [] c = 244 -> Need(3, 128, 143)
       [] OTHER -> Need(-1, 0, 0)
Utf8(b) == FoldLeft(Utf8Step, [left |-> 0, lo |-> 128, hi |-> 191], b).left = 0

Convert(t, to, b) ==
  CASE to = "octets" -> [v |-> IF t = "bytes" THEN b ELSE <<>>, murky |-> FALSE]
    [] to = "string" -> [v |-> IF t = "bytes" /\ Utf8(b) THEN b ELSE <<>>, murky |-> FALSE]
    [] to \in ScalarTargets ->
         IF t \notin Sources[to] THEN [v |-> ZeroOctets(TargetWidth(to)), murky |-> FALSE]
         ELSE LET x == ReadScalar(t, b, 1)
              IN IF x.ok THEN [v |-> x.v, murky |-> x.murky]
                 ELSE [v |-> ZeroOctets(TargetWidth(to)), murky |-> FALSE]
    [] OTHER ->
         IF t \notin Vectors \/ ElementOf[t] \notin Sources[TargetElement[to]] THEN [v |-> <<>>, murky |-> FALSE]
         ELSE ReadVector(ElementOf[t], b)

-----------------------------------------------------------------------------
(* The claims a reader would make of the functions above, on given values.   *)
RoundTrips(t, tag, v) ==
  LET b == EncodeField(t, tag, v)
      d == DecodeStream(b, NoKey)
      f == d.fields[1]
  IN /\ d.res = "ok" /\ d.rest = <<>> /\ d.key = NoKey /\ Len(d.fields) = 1
     /\ f[1] = tag /\ f[2] = WireType(t) /\ f[3] = Payload(t, v)
ConvertsBack(t, v) ==
  IF t = "bytes" THEN Convert(t, "octets", v).v = v
  ELSE IF t \in Vectors
  THEN \E x \in VectorTargets : ElementOf[t] \in Sources[TargetElement[x]] /\ Convert(t, x, Payload(t, v)).v = v
  ELSE \E x \in ScalarTargets : t \in Sources[x] /\ Convert(t, x, Payload(t, v)).v = v
=============================================================================
