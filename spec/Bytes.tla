------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Octets, bit strings and the machine integers of the interfaces.         *)
(*                                                                         *)
(* TLC integers are 32 bit signed.  A 32 bit unsigned interface value is   *)
(* the pair <<hi, lo>> of its 16 bit halves; a 64 bit value is the tuple   *)
(* of its eight octets, least significant first.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Pow2 == [i \in 0..30 |-> 2^i]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

\* FoldLeft of an op that appends to st.out and never reads it: the output of
\* long inputs is put together in blocks, so that the cost stays linear.
OutFold(op(_, _), init, src) ==
  IF Len(src) <= 300 THEN FoldLeft(op, init, src)
  ELSE FoldLeft(LAMBDA a, k :
                  LET r == FoldLeft(op, [a EXCEPT !.out = <<>>], SubSeq(src, 256 * (k - 1) + 1, Min2(Len(src), 256 * k)))
                  IN [r EXCEPT !.out = a.out \o r.out],
                init, [k \in 1..((Len(src) + 255) \div 256) |-> k])

\* The n low bits of v, most significant first.
BitsOf(v, n) == [i \in 1..n |-> (v \div Pow2[n - i]) % 2]

-----------------------------------------------------------------------------
(* 32 bit unsigned values as pairs.                                          *)
U32(n) == <<n \div 65536, n % 65536>>            \* n < 2^31
U32Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
U32Leq(a, b) == a = b \/ U32Less(a, b)
\* Small values as integers; everything from 2^30 on collapses to 2^30, which
\* no index, length or table size that can be stored here ever reaches.
Big == Pow2[30]
U32ToInt(a) == IF a[1] >= 16384 THEN Big ELSE a[1] * 65536 + a[2]

\* The five base-128 digits of a 32 bit value, least significant first.
U32Digits(a) == <<a[2] % 128,
                  (a[2] \div 128) % 128,
                  (a[2] \div 16384) + (a[1] % 32) * 4,
                  (a[1] \div 32) % 128,
                  a[1] \div 4096>>

\* Digits minus a small number m < 128, assuming the value is at least m.
DigitsMinus(d, m) ==
  LET RECURSIVE Sub(_, _)
      Sub(i, borrow) ==
        IF i > Len(d) THEN <<>>
        ELSE LET x == d[i] - borrow
             IN IF x < 0 THEN <<x + 128>> \o Sub(i + 1, 1)
                         ELSE <<x>> \o Sub(i + 1, 0)
  IN Sub(1, m)

\* Number of significant digits (at least one).
SigDigits(d) == Max({1} \cup {i \in DOMAIN d : d[i] # 0})

\* Little endian base-128 octets with continuation bits: the shortest form.
Leb(d) == LET n == SigDigits(d)
          IN [i \in 1..n |-> IF i < n THEN d[i] + 128 ELSE d[i]]

-----------------------------------------------------------------------------
(* 32 and 64 bit values as tuples of four or eight octets, least             *)
(* significant first.                                                        *)
OctetAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* The base-128 digits of such a value, least significant first, and back.
Digits(b) ==
  [j \in 1..((8 * Len(b) + 6) \div 7) |->
     LET o == 7 * (j - 1)
         q == o \div 8
     IN (OctetAt(b, q + 1) \div Pow2[o % 8] + OctetAt(b, q + 2) * Pow2[8 - (o % 8)]) % 128]
Undigits(d, width) ==
  [i \in 1..width |->
     LET o == 8 * (i - 1)
         q == o \div 7
     IN (OctetAt(d, q + 1) \div Pow2[o % 7] + OctetAt(d, q + 2) * Pow2[7 - (o % 7)]) % 256]
\* Shifts by k < 8 bits, complement, sign.
ShiftLeft(b, k) == [i \in DOMAIN b |-> (b[i] * Pow2[k] + (IF i > 1 THEN b[i - 1] \div Pow2[8 - k] ELSE 0)) % 256]
ShiftRight(b, k) == [i \in DOMAIN b |-> b[i] \div Pow2[k] + ((OctetAt(b, i + 1) * Pow2[8 - k]) % 256)]
Complement(b) == [i \in DOMAIN b |-> 255 - b[i]]
IsNegative(b) == b[Len(b)] >= 128
ZeroOctets(n) == [i \in 1..n |-> 0]
SignExtend(b, width) == b \o [i \in 1..(width - Len(b)) |-> IF IsNegative(b) THEN 255 ELSE 0]
U32Octets(a) == <<a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
OctetsU32(b) == <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>
\* As an integer; everything from 2^30 on collapses to 2^30.
OctetsToInt(b) ==
  IF \E i \in DOMAIN b : i > 4 /\ b[i] # 0 THEN Big ELSE U32ToInt(OctetsU32(b))
=============================================================================
