----------------------------- MODULE HuffTrace ------------------------------
(***************************************************************************)
(* Decides recorded Huffman calls.  The calls have no state: every line is *)
(* judged by itself.                                                       *)
(***************************************************************************)
EXTENDS Huffman, Flatten, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxReports == 40
VARIABLES l, bad

If(b, a) == IF b THEN {a} ELSE {}

EncDiffers(c) ==
  If(c.o.res # "ok", "hencres") \cup If(~c.o.kept, "hkept")
  \cup If(c.o.res = "ok" /\ c.o.kept /\ c.o.bytes # HuffEncode(c.b), "hbytes")

DecDiffers(c) ==
  LET w == HuffDecode(c.b)
  IN If((c.o.res = "ok") # w.ok, "hdecres")
     \cup If(~c.o.kept, "hkept")
     \cup If(c.o.res = "ok" /\ w.ok /\ c.o.kept /\ c.o.out # w.out, "hout")

Differs(c) ==
  IF c.o.res \in {"panic", "hang", "abort"} THEN {"panic"}
  ELSE CASE c.op = "henc" -> EncDiffers(c)
         [] c.op = "hdec" -> DecDiffers(c)
         [] c.op = "hflat" -> If(~TableOK(c.codes, c.s, c.o.table), "hflat")
         [] c.op = "hknown" -> If(c.o.speeds # [s \in 1..5 |-> <<s, s>>], "hspeeds")
         [] c.op = "htab" -> If(~TableOK(HuffCode, c.s, c.o.table), "htab")
         [] c.op = "hcodes" -> If(c.o.codes # HuffCode, "hcodes")
         [] c.op = "hparse" -> If(c.o.codes # (IF "asset" \in DOMAIN c THEN HuffCode ELSE c.codes), "hparse")

Init == l = 2 /\ bad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET c == Trace[l]
         d == IF bad >= MaxReports THEN {} ELSE Differs(c)
     IN IF d = {} THEN UNCHANGED bad
        ELSE /\ bad' = bad + 1
             /\ PrintT("MISMATCH " \o ToJson([line |-> l, aspects |-> SetToSeq(d), op |-> c.op, got |-> c.o]))
  /\ (l = Len(Trace)) => PrintT("TRACE-END " \o ToString(Len(Trace)))
TraceSpec == Init /\ [][Next]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
