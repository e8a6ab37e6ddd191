--------------------------- MODULE ProtoExamples ----------------------------
(***************************************************************************)
(* The worked examples of the protobuf encoding guide.  The specification  *)
(* has to agree with them before it judges anything.                       *)
(***************************************************************************)
EXTENDS Proto

VARIABLE done

V4(n) == U32Octets(U32(n))
V8(n) == U32Octets(U32(n)) \o ZeroOctets(4)
Neg(b) == [i \in DOMAIN b |-> 255 - b[i]]        \* -n - 1
Bytes_(t, tag, v) == EncodeField(t, U32(tag), v)
Testing == <<116, 101, 115, 116, 105, 110, 103>>

\* message Test1 { int32 a = 1; } with a = 150
ASSUME Bytes_("int32", 1, V4(150)) = <<8, 150, 1>>
\* message Test2 { string b = 2; } with b = "testing"
ASSUME Bytes_("bytes", 2, Testing) = <<18, 7>> \o Testing
\* message Test3 { Test1 c = 3; } with c.a = 150
ASSUME Bytes_("bytes", 3, Bytes_("int32", 1, V4(150))) = <<26, 3, 8, 150, 1>>
\* repeated int32 f = 6 [packed]: 3, 270, 86942
ASSUME Bytes_("int32_vec", 6, <<V4(3), V4(270), V4(86942)>>) = <<50, 6, 3, 142, 2, 158, 167, 5>>
\* repeated int32 e = 5 as single fields
ASSUME DecodeStream(<<40, 1, 40, 2, 40, 3>>, NoKey).fields
         = <<<<<<0, 5>>, 0, <<1>>>>, <<<<0, 5>>, 0, <<2>>>>, <<<<0, 5>>, 0, <<3>>>>>>
\* -2 as int32 and int64 takes ten octets, as sint32 one
ASSUME Payload("int32", Neg(V4(1))) = <<254, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
ASSUME Payload("int64", Neg(V8(1))) = <<254, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
ASSUME Payload("sint32", Neg(V4(1))) = <<3>>
\* ZigZag
ASSUME ZigZag(V4(0)) = V4(0)
ASSUME ZigZag(Neg(V4(0))) = V4(1)
ASSUME ZigZag(V4(1)) = V4(2)
ASSUME ZigZag(Neg(V4(1))) = V4(3)
ASSUME ZigZag(V4(2147483647)) = <<254, 255, 255, 255>>
ASSUME ZigZag(Neg(V4(2147483647))) = <<255, 255, 255, 255>>
\* The largest tag, and both that are none
ASSUME Bytes_("bool", 536870911, <<1>>) = <<248, 255, 255, 255, 15, 1>>
ASSUME ~ValidTag(U32(536870912)) /\ ~ValidTag(U32(0))
\* 1.0 and -0.0
ASSUME Bytes_("float", 1, <<0, 0, 128, 63>>) = <<13, 0, 0, 128, 63>>
ASSUME Bytes_("double", 1, <<0, 0, 0, 0, 0, 0, 0, 128>>) = <<9, 0, 0, 0, 0, 0, 0, 0, 128>>

Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
