------------------------------ MODULE Flatten -------------------------------
(***************************************************************************)
(* Prefix codes and the translation matrices that decode them N bits at a  *)
(* time.                                                                   *)
(*                                                                         *)
(* A code is a sequence with one code word for each symbol 0, 1, ..: a     *)
(* <<length, value>>, or <<length, high, low>> with the value in halves of *)
(* 16 bits.  A matrix is a sequence of rows of 2^N cells                   *)
(* <<next, symbol, leftover>> (-1 for absent); row numbers in cells count  *)
(* from 0.  A cell numbers rows with eight bits, so a code that needs more *)
(* than 256 rows has no matrix.                                            *)
(***************************************************************************)
EXTENDS Bytes, TLC

\* The bits of a code word.
WordBits(c) ==
  IF Len(c) = 2 THEN BitsOf(c[2], c[1])
  ELSE LET all == BitsOf(c[2], 16) \o BitsOf(c[3], 16) IN SubSeq(all, 33 - c[1], 32)

\* Nodes of the code tree are the bit strings leading to them.
Tree(codes) ==
  LET leaves == [i \in DOMAIN codes |-> WordBits(codes[i])]
  IN [sym |-> [n \in Range(leaves) |-> (CHOOSE i \in DOMAIN codes : leaves[i] = n) - 1],
      inner |-> UNION {{Take(leaves[i], k - 1) : k \in 1..Len(leaves[i])} : i \in DOMAIN codes}]
Root == <<>>
IsPrefixCode(codes) ==
  LET t == Tree(codes)
  IN /\ Cardinality(DOMAIN t.sym) = Len(codes)
     /\ (DOMAIN t.sym) \cap t.inner = {}

\* Reads up to n bits of key (most significant first) from inner node a.
\* <<"sym", symbol, bits left>>, <<"node", node, 0>> or <<"dead", 0, 0>>.
Walk(t, a, key, n) ==
  LET RECURSIVE Go(_, _)
      Go(node, k) ==
        IF k = 0 THEN <<"node", node, 0>>
        ELSE LET x == Append(node, (key \div Pow2[k - 1]) % 2)
             IN IF x \in DOMAIN t.sym THEN <<"sym", t.sym[x], k - 1>>
                ELSE IF x \in t.inner THEN Go(x, k - 1)
                ELSE <<"dead", 0, 0>>
  IN Go(a, n)

\* What the cells of the row for inner node a have to say.
CellOK(t, a, key, n, cell, rows) ==
  LET w == Walk(t, a, key, n)
  IN CASE w[1] = "sym" -> cell[2] = w[2] /\ cell[3] = w[3]
       [] w[1] = "node" -> cell[2] = -1 /\ cell[1] >= 0 /\ cell[1] < rows /\ cell[3] = 0
       [] OTHER -> cell[1] = -1 /\ cell[2] = -1

\* The matrix decodes exactly the code: its rows, from row 0 on, are those of
\* the inner nodes at depths that are multiples of n.
TableOK(codes, n, table) ==
  LET t == Tree(codes)
      RECURSIVE Check(_, _)
      Check(todo, fuel) ==
        IF todo = <<>> THEN TRUE
        ELSE IF fuel = 0 THEN FALSE
        ELSE LET row == Head(todo)[1]
                 node == Head(todo)[2]
                 cells == table[row + 1]
             IN /\ Len(cells) = Pow2[n]
                /\ \A k \in 1..Pow2[n] : CellOK(t, node, k - 1, n, cells[k], Len(table))
                /\ Check(Tail(todo)
                         \o SelectSeq([k \in 1..Pow2[n] |-> <<cells[k][1], Walk(t, node, k - 1, n)[2], Walk(t, node, k - 1, n)[1]>>],
                                      LAMBDA x : x[3] = "node"),
                         fuel - 1)
  IN Len(table) > 0 /\ Check(<<<<0, Root>>>>, 2000)

-----------------------------------------------------------------------------
(* The matrix as the library's documentation constructs it: every code is    *)
(* cut into pieces of n bits, the last one filled up in every possible way;  *)
(* rows are created in the order in which they are first needed.             *)
Blank(n) == [k \in 1..Pow2[n] |-> <<-1, -1, 0>>]
Chunks(c, n) == (c[1] + n - 1) \div n
\* Piece j (from 1) of a code word, filled up with zero bits.
Piece(c, n, j) ==
  LET w == WordBits(c)
  IN FoldLeft(LAMBDA v, i : 2 * v + (IF i <= Len(w) THEN w[i] ELSE 0), 0, [i \in 1..n |-> (j - 1) * n + i])

AddCode(table, c, sym, n) ==
  LET RECURSIVE Down(_, _, _)
      Down(tb, row, j) ==
        IF j = Chunks(c, n)
        THEN LET left == j * n - c[1]
                 first == Piece(c, n, j) + 1
             IN [tb EXCEPT ![row] = [k \in DOMAIN tb[row] |->
                   IF k >= first /\ k < first + Pow2[left] THEN <<tb[row][k][1], sym, left>> ELSE tb[row][k]]]
        ELSE LET k == Piece(c, n, j) + 1
             IN IF tb[row][k][1] >= 0 THEN Down(tb, tb[row][k][1] + 1, j + 1)
                ELSE Down(Append([tb EXCEPT ![row][k][1] = Len(tb)], Blank(n)), Len(tb) + 1, j + 1)
  IN Down(table, 1, 1)

FlattenCode(codes, n) ==
  LET RECURSIVE All(_, _)
      All(tb, i) == IF i > Len(codes) THEN tb ELSE All(AddCode(tb, codes[i], i - 1, n), i + 1)
  IN All(<<Blank(n)>>, 1)
=============================================================================
