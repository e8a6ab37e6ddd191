----------------------------- MODULE ProtoFunMC -----------------------------
(***************************************************************************)
(* Encoding and conversion are functions: TLC walks over a finite set of   *)
(* arguments with all their corner cases, checks the claims of the         *)
(* specification on each, and prints the call with the expected reply.     *)
(***************************************************************************)
EXTENDS Proto, Json

CONSTANTS Kind, EmitOn

VARIABLES t,      \* the type chosen first (so that workers share the load)
          op      \* the call chosen then

-----------------------------------------------------------------------------
(* Values: around every power of two, and their complements.                 *)
PowerOf2(k, w) == [i \in 1..w |-> IF i = k \div 8 + 1 THEN Pow2[k % 8] ELSE 0]
Below(k, w) == [i \in 1..w |-> IF i < k \div 8 + 1 THEN 255 ELSE IF i = k \div 8 + 1 THEN Pow2[k % 8] - 1 ELSE 0]
Above(k, w) == [PowerOf2(k, w) EXCEPT ![1] = IF k = 0 THEN 2 ELSE @ + 1]
Plain(w) == UNION {{PowerOf2(k, w), Below(k, w), Above(k, w)} : k \in 0..(8 * w - 1)}
Values(w) ==
  IF w = 1 THEN {<<0>>, <<1>>}
  ELSE Plain(w) \cup {Complement(v) : v \in Plain(w)}
       \cup {[i \in 1..w |-> 85], [i \in 1..w |-> 170], [i \in 1..w |-> 127], [i \in 1..w |-> i * 29]}
Few(w) ==
  IF w = 1 THEN {<<0>>, <<1>>}
  ELSE {ZeroOctets(w), PowerOf2(0, w), PowerOf2(7, w), Complement(ZeroOctets(w)), PowerOf2(8 * w - 1, w), [i \in 1..w |-> i * 29]}

GoodTags == {U32(n) : n \in {1, 2, 15, 16, 17, 31, 32, 127, 128, 2047, 2048, 65535, 65536, 262143, 262144, 33554431, 33554432, 536870910, 536870911}}
BadTags == {<<0, 0>>, <<8192, 0>>, <<8192, 1>>, <<16384, 0>>, <<24576, 7>>, <<32768, 0>>, <<32768, 1>>, <<57344, 1>>, <<65535, 65535>>, <<65535, 65528>>}

PlainBytes == {[i \in 1..n |-> (i * 7) % 256] : n \in {0, 1, 2, 126, 127, 128, 129, 255, 256, 300}} \cup {<<0>>, <<0, 0, 0>>, <<255>>}
Rep(v, n) == [i \in 1..n |-> v]
VecValues(e) ==
  LET w == Width(e)
      f == Few(w)
  IN {<<>>} \cup {<<a>> : a \in Values(w)} \cup {<<a, b>> : a \in f, b \in f}
     \cup {<<a, b, c>> : a \in f, b \in {PowerOf2(0, w)}, c \in f}
     \cup {Rep(a, n) : a \in {ZeroOctets(w), Complement(ZeroOctets(w))} \cap (IF w = 1 THEN {<<0>>} ELSE Few(w)), n \in {12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129}}
VecFew(e) == {<<>>, <<PowerOf2(0, Width(e))>>, <<PowerOf2(0, Width(e)), ZeroOctets(Width(e))>>}

Enc(x, tag, v, via) == [op |-> "penc", t |-> x, tag |-> tag, v |-> v, via |-> via]
EncCalls(x) ==
  LET many == IF x = "bytes" THEN PlainBytes ELSE IF x \in Vectors THEN VecValues(ElementOf[x]) ELSE Values(Width(x))
      few == IF x = "bytes" THEN {<<>>, <<1, 2, 3>>} ELSE IF x \in Vectors THEN VecFew(ElementOf[x]) ELSE Few(Width(x))
  IN {Enc(x, tag, v, via) : tag \in {U32(1), U32(16)}, v \in many, via \in 0..2}
     \cup {Enc(x, tag, v, via) : tag \in GoodTags \cup BadTags, v \in few, via \in 0..2}

-----------------------------------------------------------------------------
Targets == ScalarTargets \cup VectorTargets \cup {"octets", "string"}
Alphabet == {0, 1, 2, 127, 128, 129, 255}
Short == {<<>>} \cup {<<a>> : a \in 0..255} \cup {<<a, b>> : a \in Alphabet, b \in Alphabet \cup {200}}
         \cup {<<a, b, c>> : a \in Alphabet, b \in Alphabet, c \in Alphabet}
Long ==
  {Rep(o, n) : o \in {0, 1, 127, 128, 255}, n \in 4..13}
  \cup {Append(Rep(o, n), 1) : o \in {128, 255, 129}, n \in 3..10}
  \cup {Append(Rep(o, n), 0) : o \in {128, 255, 129}, n \in 3..10}
  \cup {Append(Rep(o, 9), 1) \o x : o \in {128, 255}, x \in {<<>>, <<1>>, <<128>>, Rep(255, 9)}}
  \cup {[i \in 1..n |-> (i * 37) % 128] : n \in 4..17}
  \cup {[i \in 1..n |-> (i * 37 + 100) % 256] : n \in {4, 5, 7, 8, 9, 12, 16, 24}}
\* UTF-8 of every shape, well formed and not.
Texts ==
  {<<a, b>> : a \in {193, 194, 223, 224, 240}, b \in {127, 128, 191, 192}}
  \cup {<<a, b, c>> : a \in {224, 225, 236, 237, 238, 239}, b \in {128, 159, 160, 191}, c \in {127, 128, 191}}
  \cup {<<a, b, c, 128>> : a \in {240, 241, 243, 244, 245}, b \in {128, 143, 144, 191}, c \in {65, 128}}
  \cup {<<65, 195, 169, 66>>, <<65, 195>>, <<195, 169, 255>>, <<240, 159, 152, 128, 240, 159, 152>>, <<104, 105>>}
LitCalls(x) ==
  {[op |-> "lit", t |-> x, to |-> y, b |-> b] : y \in Targets, b \in Short \cup Long}
  \cup (IF x = "bytes" THEN {[op |-> "lit", t |-> x, to |-> y, b |-> b] : y \in {"string", "octets"}, b \in Texts} ELSE {})

-----------------------------------------------------------------------------
None == [op |-> "none"]
Init == t = "" /\ op = None
Next == \/ t = "" /\ t' \in Types /\ op' = None
        \/ /\ t # "" /\ op = None /\ UNCHANGED t
           /\ op' \in IF Kind = "enc" THEN EncCalls(t) ELSE LitCalls(t)
Spec == Init /\ [][Next]_<<t, op>>

Line(o, e) == PrintT("!" \o ToJson([op |-> o, e |-> e]))
Emitted ==
  (EmitOn /\ op.op # "none") =>
    IF Kind = "enc" THEN Line(op, EncodeReply(op.t, op.tag, op.v))
    ELSE LET w == Convert(op.t, op.to, op.b) IN w.murky \/ Line(op, [res |-> "ok", v |-> w.v])
ASSUME EmitOn => PrintT("#{}")

\* C15, C16, C19: what is written reads back.
ReadsBack ==
  (Kind = "enc" /\ op.op # "none" /\ ValidTag(op.tag)) =>
    RoundTrips(op.t, op.tag, op.v) /\ ConvertsBack(op.t, op.v)
\* C15: shortest varints.
Shortest ==
  (Kind = "enc" /\ op.op # "none" /\ op.t \in Scalars /\ WireType(op.t) = Varint) =>
    LET p == Payload(op.t, op.v) IN Len(p) = 1 \/ p[Len(p)] # 0
\* C20: the answer has the shape of the target.
RightShape ==
  (Kind = "lit" /\ op.op # "none") =>
    LET w == Convert(op.t, op.to, op.b)
    IN op.to \in ScalarTargets => Len(w.v) = TargetWidth(op.to)
=============================================================================
