------------------------------- MODULE Numbers ------------------------------
(***************************************************************************)
(* The arithmetic behind C06, C15 and C20 for every value, not only the    *)
(* ones TLC meets: the digits that Bytes computes from halves and octets   *)
(* are the base 128 digits of the value, subtraction of a small number     *)
(* digit by digit is subtraction, and the zigzag is undone.                *)
(***************************************************************************)
EXTENDS Integers, TLAPS

H == 65536
Half == 0..65535
Digit == 0..127

\* Bytes!U32Digits
THEOREM DigitsOfHalves ==
  ASSUME NEW a \in Half, NEW b \in Half
  PROVE  LET d1 == b % 128
             d2 == (b \div 128) % 128
             d3 == (b \div 16384) + (a % 32) * 4
             d4 == (a \div 32) % 128
             d5 == a \div 4096
         IN /\ d1 \in Digit /\ d2 \in Digit /\ d3 \in Digit /\ d4 \in Digit /\ d5 \in 0..15
            /\ d1 + 128 * (d2 + 128 * (d3 + 128 * (d4 + 128 * d5))) = a * H + b
<1>1. b \in Int /\ a \in Int /\ 0 <= b /\ b <= 65535 /\ 0 <= a /\ a <= 65535
  BY DEF Half
<1>2. b = b % 128 + 128 * (b \div 128) /\ b % 128 \in Digit /\ b \div 128 \in 0..511
  BY <1>1, Z3T(60) DEF Digit
<1>3. /\ b \div 128 = (b \div 128) % 128 + 128 * ((b \div 128) \div 128)
      /\ (b \div 128) % 128 \in Digit
  BY <1>2, Z3T(60) DEF Digit
<1>4. (b \div 128) \div 128 = b \div 16384 /\ b \div 16384 \in 0..3
  BY <1>1, Z3T(60)
<1>5. a = a % 32 + 32 * (a \div 32) /\ a % 32 \in 0..31 /\ a \div 32 \in 0..2047
  BY <1>1, Z3T(60)
<1>6. /\ a \div 32 = (a \div 32) % 128 + 128 * ((a \div 32) \div 128)
      /\ (a \div 32) % 128 \in Digit
  BY <1>5, Z3T(60) DEF Digit
<1>7. (a \div 32) \div 128 = a \div 4096 /\ a \div 4096 \in 0..15
  BY <1>1, Z3T(60)
<1>8. b % 128 + 128 * ((b \div 128) % 128 + 128 * ((b \div 16384 + (a % 32) * 4)
                           + 128 * ((a \div 32) % 128 + 128 * (a \div 4096)))) = a * 65536 + b
  <2> DEFINE x == b % 128  p == b \div 128  y == (b \div 128) % 128  q == b \div 16384
             u == a % 32   r == a \div 32   w == (a \div 32) % 128   s == a \div 4096
  <2>1. /\ x \in Int /\ p \in Int /\ y \in Int /\ q \in Int
        /\ u \in Int /\ r \in Int /\ w \in Int /\ s \in Int
    BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Digit
  <2>2. b = x + 128 * p /\ p = y + 128 * q /\ a = u + 32 * r /\ r = w + 128 * s
    BY <1>2, <1>3, <1>4, <1>5, <1>6, <1>7
  <2>3. a \in Int /\ b \in Int
    BY <1>1
  <2> HIDE DEF x, p, y, q, u, r, w, s
  <2>4. x + 128 * (y + 128 * ((q + u * 4) + 128 * (w + 128 * s))) = a * 65536 + b
    BY <2>1, <2>2, <2>3, Z3T(60)
  <2> QED BY <2>4 DEF x, y, q, u, w, s
<1>9. b \div 16384 + (a % 32) * 4 \in Digit
  <2> DEFINE q == b \div 16384  u == a % 32
  <2>1. q \in 0..3 /\ u \in 0..31
    BY <1>4, <1>5
  <2> HIDE DEF q, u
  <2>2. q + u * 4 \in Digit
    BY <2>1 DEF Digit
  <2> QED BY <2>2 DEF q, u
<1> QED
  BY <1>2, <1>3, <1>6, <1>7, <1>8, <1>9 DEF H

\* One step of Bytes!DigitsMinus: what is borrowed is taken from the next digit.
THEOREM Borrow ==
  ASSUME NEW x \in Digit, NEW m \in 0..127, NEW rest \in Int
  PROVE  LET y == IF x - m < 0 THEN x - m + 128 ELSE x - m
             borrow == IF x - m < 0 THEN 1 ELSE 0
         IN y \in Digit /\ y + 128 * (rest - borrow) = x + 128 * rest - m
  BY Z3T(60) DEF Digit

\* Base 128 digits are unique: equal values, equal digits.
THEOREM Unique ==
  ASSUME NEW x \in Digit, NEW y \in Digit, NEW p \in Nat, NEW q \in Nat, x + 128 * p = y + 128 * q
  PROVE  x = y /\ p = q
  BY Z3T(60) DEF Digit

\* The zigzag on n bits, top = 2^(n-1), on two's complement values v < 2 top.
Zig(v, top) == IF v < top THEN 2 * v ELSE 4 * top - 1 - 2 * v
Zag(z, top) == IF z % 2 = 0 THEN z \div 2 ELSE 2 * top - 1 - (z \div 2)
THEOREM ZigZag ==
  ASSUME NEW top \in Nat, top > 0, NEW v \in 0..(2 * top - 1)
  PROVE  /\ Zig(v, top) \in 0..(2 * top - 1)
         /\ Zag(Zig(v, top), top) = v
  BY Z3T(60) DEF Zig, Zag
\* Small magnitudes have small codes.
THEOREM ZigOrder ==
  ASSUME NEW top \in Nat, top > 0, NEW k \in 0..(top - 1)
  PROVE  Zig(k, top) = 2 * k /\ (k > 0 => Zig(2 * top - k, top) = 2 * k - 1)
  BY Z3T(60) DEF Zig
=============================================================================
