------------------------------ MODULE Huffman -------------------------------
(***************************************************************************)
(* The RFC 7541 Huffman code: encoding of octet strings and strict         *)
(* decoding by a bit automaton over the code tree.                         *)
(***************************************************************************)
EXTENDS Bytes, HuffmanTable

EOS == 256
CodeLen(s) == HuffCode[s + 1][1]
CodeVal(s) == HuffCode[s + 1][2]

-----------------------------------------------------------------------------
(* Encoding.  The code of a symbol is consumed in pieces of at most eight    *)
(* bits, so that the accumulator never exceeds 15 bits.                      *)
Pieces == [s \in 0..256 |->
  LET l == CodeLen(s)
      n == (l + 7) \div 8
  IN [k \in 1..n |->
        LET w == IF k < n THEN 8 ELSE l - 8 * (n - 1)
            below == l - 8 * (k - 1) - w
        IN <<w, (CodeVal(s) \div Pow2[below]) % Pow2[w]>>]]

PutBits(st, p) ==      \* st = [out, cur, n]: n < 8 bits pending with value cur
  LET n == st.n + p[1]
      v == st.cur * Pow2[p[1]] + p[2]
  IN IF n >= 8
     THEN [out |-> Append(st.out, v \div Pow2[n - 8]), cur |-> v % Pow2[n - 8], n |-> n - 8]
     ELSE [out |-> st.out, cur |-> v, n |-> n]

HuffEncode(src) ==
  LET st == OutFold(LAMBDA a, c : FoldLeft(PutBits, a, Pieces[c]),
                    [out |-> <<>>, cur |-> 0, n |-> 0], src)
  IN IF st.n = 0 THEN st.out
     ELSE Append(st.out, st.cur * Pow2[8 - st.n] + Pow2[8 - st.n] - 1)

-----------------------------------------------------------------------------
(* The code tree.  A node is the bit string leading to it with a leading 1,  *)
(* read as a number: the root is 1, the children of n are 2n and 2n + 1.     *)
Leaf(s) == IF CodeLen(s) = 30 THEN (Pow2[30] - 1) + CodeVal(s) + 1
           ELSE Pow2[CodeLen(s)] + CodeVal(s)
Leaves == {Leaf(s) : s \in 0..256}
Inner == UNION {{Leaf(s) \div Pow2[k] : k \in 1..CodeLen(s)} : s \in 0..256}
NodeSeq == SetToSortSeq(Inner, LAMBDA a, b : a < b)        \* NodeSeq[1] = 1, the root
NodeIx == [n \in Inner |-> CHOOSE i \in 1..Len(NodeSeq) : NodeSeq[i] = n]
LeafSym == [l \in Leaves |-> CHOOSE s \in 0..256 : Leaf(s) = l]
LeafMark == 1000
Target(n) == IF n \in Inner THEN NodeIx[n] ELSE LeafMark + LeafSym[n]
\* Step[i][b + 1]: the node after reading bit b in node i, or LeafMark + symbol.
Step == [i \in 1..Len(NodeSeq) |-> <<Target(2 * NodeSeq[i]), Target(2 * NodeSeq[i] + 1)>>]
\* A decoding may end in these nodes: less than eight bits, all ones, pending.
\* Depth and ones(n): the pending bits of node n are d ones iff n = 2^(d+1) - 1.
EndNode == [i \in 1..Len(NodeSeq) |-> \E d \in 0..7 : NodeSeq[i] = Pow2[d + 1] - 1]

\* The code is a complete prefix code (checked when the module is loaded).
ASSUME CodeIsComplete ==
  /\ Len(HuffCode) = 257
  /\ Cardinality(Leaves) = 257
  /\ Leaves \cap Inner = {}
  /\ Cardinality(Inner) = 256
  /\ \A n \in Inner : {2 * n, 2 * n + 1} \subseteq (Inner \cup Leaves)
  /\ \A s \in 0..256 : CodeLen(s) >= 5 /\ CodeVal(s) < Pow2[CodeLen(s)]

-----------------------------------------------------------------------------
(* Decoding.  State: node, symbols so far, err once an EOS code was read.    *)
DecBit(st, b) ==
  IF st.err THEN st
  ELSE LET t == Step[st.node][b + 1]
       IN IF t < LeafMark THEN [st EXCEPT !.node = t]
          ELSE IF t = LeafMark + EOS THEN [st EXCEPT !.err = TRUE]
          ELSE [node |-> 1, out |-> Append(st.out, t - LeafMark), err |-> FALSE]

\* Four bits at a time: Jump[i][x + 1] is where the bits of x lead from node i.
Jump == [i \in 1..Len(NodeSeq) |-> [x \in 1..16 |->
          FoldLeft(DecBit, [node |-> i, out |-> <<>>, err |-> FALSE], BitsOf(x - 1, 4))]]
DecNibble(st, x) ==
  IF st.err THEN st
  ELSE LET j == Jump[st.node][x + 1]
       IN IF j.out = <<>> THEN [node |-> j.node, out |-> st.out, err |-> j.err]
          ELSE [node |-> j.node, out |-> st.out \o j.out, err |-> j.err]
DecOctet(st, o) == DecNibble(DecNibble(st, o \div 16), o % 16)
DecInit == [node |-> 1, out |-> <<>>, err |-> FALSE]

HuffDecode(src) ==
  LET st == OutFold(DecOctet, DecInit, src)
      ok == ~st.err /\ EndNode[st.node]
  IN [ok |-> ok, out |-> IF ok THEN st.out ELSE <<>>]
=============================================================================
