----------------------------- MODULE HpackPrims -----------------------------
(***************************************************************************)
(* HPACK integer and string representations and header field              *)
(* representations (RFC 7541, sections 5 and 6), with the limits this      *)
(* implementation documents: an integer takes at most five octets.         *)
(***************************************************************************)
EXTENDS Bytes, Huffman, IndexTable

MaxIntOctets == 5

-----------------------------------------------------------------------------
(* Integers.  u is a 32 bit pair.                                            *)
Mask(prefix) == Pow2[prefix] - 1
IntEncode(u, prefix, flags) ==
  IF U32Less(u, <<0, Mask(prefix)>>) THEN <<flags + u[2]>>
  ELSE <<flags + Mask(prefix)>> \o Leb(DigitsMinus(U32Digits(u), Mask(prefix)))

\* Reads an integer at buf[pos].  st: "ok", "short" (octets missing), "over".
IntDecode(buf, pos, prefix) ==
  IF pos > Len(buf) THEN [st |-> "short", val |-> 0, len |-> 0]
  ELSE LET first == buf[pos] % Pow2[prefix]
           RECURSIVE More(_, _)
           More(k, acc) ==       \* k octets read so far
             IF pos + k > Len(buf) THEN [st |-> "short", val |-> 0, len |-> 0]
             ELSE LET b == buf[pos + k]
                      v == acc + (b % 128) * Pow2[7 * (k - 1)]
                  IN IF b < 128 THEN [st |-> "ok", val |-> v, len |-> k + 1]
                     ELSE IF k + 1 = MaxIntOctets THEN [st |-> "over", val |-> 0, len |-> 0]
                     ELSE More(k + 1, v)
       IN IF first < Mask(prefix) THEN [st |-> "ok", val |-> first, len |-> 1]
          ELSE More(1, first)

IntErr(st) == IF st = "short" THEN "IntegerUnderflow" ELSE "IntegerOverflow"

-----------------------------------------------------------------------------
(* Strings.                                                                  *)
StrEncode(s, huff) ==
  LET data == IF huff THEN HuffEncode(s) ELSE s
  IN IntEncode(U32(Len(data)), 7, IF huff THEN 128 ELSE 0) \o data

\* errs is empty on success; otherwise what is wrong with the string.  known
\* tells whether its extent is known (so that what follows can be read).
StrDecode(buf, pos) ==
  LET i == IntDecode(buf, pos, 7)
  IN IF i.st # "ok" THEN [errs |-> {IntErr(i.st)}, known |-> FALSE, val |-> <<>>, len |-> 0, huff |-> FALSE]
     ELSE IF i.val > Len(buf) - (pos - 1) - i.len
     THEN [errs |-> {"IntegerUnderflow"}, known |-> FALSE, val |-> <<>>, len |-> 0, huff |-> FALSE]
     ELSE LET raw == SubSeq(buf, pos + i.len, pos + i.len + i.val - 1)
              huff == buf[pos] >= 128
              d == IF huff THEN HuffDecode(raw) ELSE [ok |-> TRUE, out |-> raw]
          IN [errs |-> IF d.ok THEN {} ELSE {"InvalidInput"}, known |-> TRUE,
              val |-> d.out, len |-> i.len + i.val, huff |-> huff]

-----------------------------------------------------------------------------
(* Header field representations.                                             *)
KindOf(octet) == IF octet >= 128 THEN "indexed"
                 ELSE IF octet >= 64 THEN "inc"
                 ELSE IF octet >= 32 THEN "size"
                 ELSE IF octet >= 16 THEN "never"
                 ELSE "non"
PrefixOf(kind) == CASE kind = "indexed" -> 7 [] kind = "inc" -> 6 [] kind = "size" -> 5 [] OTHER -> 4
MarkOf(kind) == CASE kind = "indexed" -> 128 [] kind = "inc" -> 64 [] kind = "size" -> 32
                  [] kind = "never" -> 16 [] OTHER -> 0

NoField == [kind |-> "none", errs |-> {}, len |-> 0, ref |-> 0, name |-> <<>>, value |-> <<>>,
            hname |-> FALSE, hvalue |-> FALSE]

\* The representation at buf[pos] against table t; errs is the set of all
\* defects it has (an implementation may report any one of them).
ParseField(buf, pos, t) ==
  LET kind == KindOf(buf[pos])
      i == IntDecode(buf, pos, PrefixOf(kind))
      base == [NoField EXCEPT !.kind = kind]
  IN IF i.st # "ok" THEN [base EXCEPT !.errs = {IntErr(i.st)}]
     ELSE IF kind = "size" THEN [base EXCEPT !.ref = i.val, !.len = i.len]
     ELSE IF kind = "indexed"
     THEN IF HasIndex(t, i.val)
          THEN [base EXCEPT !.ref = i.val, !.len = i.len, !.name = At(t, i.val)[1], !.value = At(t, i.val)[2]]
          ELSE [base EXCEPT !.errs = {"InvalidIndex"}]
     ELSE LET nm == IF i.val = 0 THEN StrDecode(buf, pos + i.len)
                    ELSE [errs |-> IF HasIndex(t, i.val) THEN {} ELSE {"InvalidIndex"}, known |-> TRUE,
                          val |-> IF HasIndex(t, i.val) THEN At(t, i.val)[1] ELSE <<>>,
                          len |-> 0, huff |-> FALSE]
          IN IF ~nm.known THEN [base EXCEPT !.errs = nm.errs]
             ELSE LET vl == StrDecode(buf, pos + i.len + nm.len)
                      errs == nm.errs \cup vl.errs
                  IN IF errs # {} THEN [base EXCEPT !.errs = errs]
                     ELSE [kind |-> kind, errs |-> {}, len |-> i.len + nm.len + vl.len, ref |-> i.val,
                           name |-> nm.val, value |-> vl.val, hname |-> nm.huff, hvalue |-> vl.huff]

FlagOf(kind) == CASE kind = "inc" -> 4 [] kind = "never" -> 8 [] OTHER -> 0
=============================================================================
