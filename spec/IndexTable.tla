----------------------------- MODULE IndexTable -----------------------------
(***************************************************************************)
(* The HPACK indexing table (RFC 7541, sections 2.3 and 4).                *)
(* A table is [tab, max]: the dynamic entries <<name, value>>, newest      *)
(* first, and the maximum size as a 32 bit value.                          *)
(***************************************************************************)
EXTENDS Bytes, HpackStatic

StaticLen == Len(StaticTable)
ASSUME StaticLen = 61

EntrySize(e) == Len(e[1]) + Len(e[2]) + 32
TableSize(tab) == FoldLeft(LAMBDA a, e : a + EntrySize(e), 0, tab)

\* The longest run of newest entries that fits: everything older is evicted.
Fitting(tab, max) ==
  LET r == FoldLeft(LAMBDA a, e :
                      IF a.full THEN a
                      ELSE IF a.size + EntrySize(e) <= max
                           THEN [n |-> a.n + 1, size |-> a.size + EntrySize(e), full |-> FALSE]
                           ELSE [a EXCEPT !.full = TRUE],
                    [n |-> 0, size |-> 0, full |-> FALSE], tab)
  IN r.n
Evict(tab, max) == Take(tab, Fitting(tab, U32ToInt(max)))

Insert(t, e) == [t EXCEPT !.tab = Evict(<<e>> \o t.tab, t.max)]
SetMax(t, max) == [t EXCEPT !.max = max, !.tab = Evict(t.tab, max)]

-----------------------------------------------------------------------------
(* The single index address space.                                           *)
LastIndex(t) == StaticLen + Len(t.tab)
HasIndex(t, i) == i >= 1 /\ i <= LastIndex(t)
At(t, i) == IF i <= StaticLen THEN StaticTable[i] ELSE t.tab[i - StaticLen]

\* The first static entry of each static name: an index for the name search.
FirstFull(seq, n, v) == SelectInSeq(seq, LAMBDA e : e[1] = n /\ e[2] = v)
FirstName(seq, n) == SelectInSeq(seq, LAMBDA e : e[1] = n)
\* [index, full]: the lowest full match, else the lowest name match, else 0.
Find(t, n, v) ==
  LET sf == FirstFull(StaticTable, n, v)
  IN IF sf # 0 THEN [index |-> sf, full |-> TRUE]
     ELSE LET df == FirstFull(t.tab, n, v)
          IN IF df # 0 THEN [index |-> StaticLen + df, full |-> TRUE]
             ELSE LET sn == FirstName(StaticTable, n)
                  IN IF sn # 0 THEN [index |-> sn, full |-> FALSE]
                     ELSE LET dn == FirstName(t.tab, n)
                          IN IF dn # 0 THEN [index |-> StaticLen + dn, full |-> FALSE]
                             ELSE [index |-> 0, full |-> FALSE]

-----------------------------------------------------------------------------
(* What every table must satisfy, and how one step may change it.            *)
Bounded(t) == TableSize(t.tab) <= U32ToInt(t.max)

\* t2 follows t1 by evicting oldest entries and adding at most one new entry.
FifoStep(t1, t2) ==
  \/ IsPrefix(t2.tab, t1.tab)
  \/ /\ t2.tab # <<>>
     /\ IsPrefix(Tail(t2.tab), t1.tab)

\* Evictions are minimal: the next older entry would not have fitted.
MinimalEviction(t1, e, t2) ==
  LET all == <<e>> \o t1.tab
  IN Len(t2.tab) = Len(all) \/ TableSize(Take(all, Len(t2.tab) + 1)) > U32ToInt(t2.max)
=============================================================================
