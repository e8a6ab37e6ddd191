----------------------------- MODULE ProtoSink ------------------------------
(***************************************************************************)
(* Writing an encoding to a sink that may take part of what it is offered, *)
(* ask for another try, take nothing or fail.                              *)
(*                                                                         *)
(* How the encoder cuts the encoding into writes is its own business, so   *)
(* the outcome is a relation: the call succeeds exactly if the sink never  *)
(* refused, and then everything was taken and counted; otherwise what was  *)
(* taken is a beginning of the encoding.                                   *)
(***************************************************************************)
EXTENDS Bytes

\* w: the reply of the same call on an ordinary buffer; o: what happened,
\* with the octets the sink took and whether it ever refused.
SinkVerdict(w, o) ==
  IF w.res # "ok"
  THEN (IF o.res # w.res THEN {"pres"} ELSE {}) \cup (IF o.bytes # <<>> THEN {"pleak"} ELSE {})
  ELSE (IF o.failed # (o.res # "ok") THEN {"sres"} ELSE {})
       \cup (IF ~IsPrefix(o.bytes, w.bytes) THEN {"sprefix"} ELSE {})
       \cup (IF o.res = "ok" /\ o.bytes # w.bytes THEN {"swhole"} ELSE {})
       \cup (IF o.res = "ok" /\ o.n # w.n THEN {"pn"} ELSE {})
=============================================================================
