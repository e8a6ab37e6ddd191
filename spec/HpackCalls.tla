----------------------------- MODULE HpackCalls -----------------------------
(***************************************************************************)
(* One calling convention for both bindings: a call is a record with the   *)
(* operation in field op.  The model checker takes calls from a finite     *)
(* list, the trace checker takes them from a recorded execution; both run  *)
(* the same actions of Hpack.                                              *)
(***************************************************************************)
EXTENDS Hpack

VARIABLES
  tbl,      \* a stand-alone indexing table: [tab, max]
  who,      \* the number of the instance the other variables belong to
  others    \* the state of every other instance, by its number

TableInit(max) == tbl = [tab |-> <<>>, max |-> max] /\ who = 1 /\ others = <<>>

TableReply(r) == reply' = r /\ UNCHANGED <<enc, dec, wire, buf, due, clean>>
EntryOrNone(t, i) == IF HasIndex(t, i) THEN <<At(t, i)>> ELSE <<>>

\* What the accessors of the table show: length of everything, dynamic
\* length, dynamic size, maximum, and the entries in iteration order.
TableStat(t) ==
  [res |-> "ok", len |-> LastIndex(t), dlen |-> Len(t.tab), size |-> TableSize(t.tab), max |-> t.max]

TInsert(n, v) == tbl' = Insert(tbl, <<n, v>>) /\ TableReply(NoReply)
\* k insertions of small entries.  At an unchanged maximum, evicting once at
\* the end leaves the same entries as evicting at every step.
FillEntry(x) == <<<<x % 256, (x \div 256) % 256>>, <<>>>>
TFill(k) == tbl' = [tbl EXCEPT !.tab = Evict([i \in 1..k |-> FillEntry(k - i)] \o @, tbl.max)] /\ TableReply(NoReply)
TUpdate(s) == tbl' = SetMax(tbl, s) /\ TableReply(NoReply)
TGet(i) == UNCHANGED tbl /\ TableReply([res |-> "ok", entry |-> EntryOrNone(tbl, U32ToInt(i))])
TFind(n, v) ==
  UNCHANGED tbl /\ LET m == Find(tbl, n, v) IN TableReply([res |-> "ok", index |-> m.index, full |-> m.full])
TStat == UNCHANGED tbl /\ TableReply(TableStat(tbl))
TIter == UNCHANGED tbl /\ TableReply([res |-> "ok", entries |-> StaticTable \o tbl.tab])
TDyn == UNCHANGED tbl /\ TableReply([res |-> "ok", entries |-> tbl.tab])

TableBounded == Bounded(tbl)
TableFifo == [][FifoStep(tbl, tbl')]_tbl

-----------------------------------------------------------------------------
(* The tables as they can be read through the public interface: the decoder  *)
(* shows its entries when told to decode their indices, the encoder shows    *)
(* how many indices it accepts and how it writes a given field.              *)
ProbeReply(cand) ==
  [res |-> "ok", dtab |-> dec.tab, dmax |-> dec.max, elen |-> Len(enc.tab), emax |-> enc.max,
   efind |-> [k \in 1..Len(cand) |->
                \* what best format writes for a field that is not to be indexed
                EncLiteral(enc, cand[k][1], cand[k][2], 16).bytes]]
Probe(cand) == reply' = ProbeReply(cand) /\ UNCHANGED <<enc, dec, wire, buf, due, clean>>

-----------------------------------------------------------------------------
(* An instance is an encoder, a decoder and a table with what lies between.  *)
(* There may be several; they have nothing in common.                        *)
Fresh(c) ==
  [enc |-> [tab |-> <<>>, max |-> c.emax], dec |-> [tab |-> <<>>, max |-> c.dmax, limit |-> c.dmax],
   tbl |-> [tab |-> <<>>, max |-> c.emax], wire |-> <<>>, buf |-> <<>>, due |-> <<>>, clean |-> TRUE]
Current == [enc |-> enc, dec |-> dec, tbl |-> tbl, wire |-> wire, buf |-> buf, due |-> due, clean |-> clean]
Becomes(x) ==
  /\ enc' = x.enc /\ dec' = x.dec /\ tbl' = x.tbl /\ wire' = x.wire /\ buf' = x.buf /\ due' = x.due /\ clean' = x.clean
  /\ reply' = NoReply

\* A session begins: one new instance and no other.
New(c) == Becomes(Fresh(c)) /\ who' = 1 /\ others' = <<>>
\* This instance is replaced by a new one.
Renew(c) == Becomes(Fresh(c))
\* The calls that follow are made on another instance.
Switch(c) ==
  /\ c.to # who
  /\ Becomes(IF c.to \in DOMAIN others THEN others[c.to] ELSE Fresh(c))
  /\ who' = c.to
  /\ others' = [j \in (DOMAIN others \cup {who}) \ {c.to} |-> IF j = who THEN Current ELSE others[j]]

\* Calls on one instance.
Single(c) ==
  \/ c.op = "renew" /\ Renew(c)
  \/ c.op = "enc_lit" /\ EncodeLiteral(c.n, c.v, c.f) /\ UNCHANGED tbl
  \/ c.op = "enc_plain" /\ EncodePlain(c.n, c.v, c.f) /\ UNCHANGED tbl
  \/ c.op = "enc_idx" /\ EncodeIndexed(c.i) /\ UNCHANGED tbl
  \/ c.op = "enc_idxname" /\ EncodeIndexedName(c.i, c.v, c.f) /\ UNCHANGED tbl
  \/ c.op = "resize" /\ ResizeTable(c.s) /\ UNCHANGED tbl
  \/ c.op = "set_limit" /\ SetLimit(c.s) /\ UNCHANGED tbl
  \/ c.op = "deliver" /\ Deliver(c.k) /\ UNCHANGED tbl
  \/ c.op = "flush" /\ Deliver(Len(wire)) /\ UNCHANGED tbl
  \/ c.op = "inject" /\ Inject(c.b) /\ UNCHANGED tbl
  \/ c.op = "discard" /\ Discard /\ UNCHANGED tbl
  \/ c.op = "decode" /\ Decode /\ UNCHANGED tbl
  \/ c.op = "decode_exact" /\ DecodeExact(c.c) /\ UNCHANGED tbl
  \/ c.op = "probe" /\ Probe(c.cand) /\ UNCHANGED tbl
  \/ c.op = "t_insert" /\ TInsert(c.n, c.v)
  \/ c.op = "t_fill" /\ TFill(c.k)
  \/ c.op = "t_update" /\ TUpdate(c.s)
  \/ c.op = "t_get" /\ TGet(c.i)
  \/ c.op = "t_find" /\ TFind(c.n, c.v)
  \/ c.op = "t_stat" /\ TStat
  \/ c.op = "t_iter" /\ TIter
  \/ c.op = "t_dyn" /\ TDyn

Do(c) ==
  IF c.op = "new" THEN New(c)
  ELSE IF c.op = "switch" THEN Switch(c)
  ELSE Single(c) /\ UNCHANGED <<who, others>>
=============================================================================
