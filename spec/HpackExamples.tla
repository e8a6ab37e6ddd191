--------------------------- MODULE HpackExamples ----------------------------
(***************************************************************************)
(* The worked examples of RFC 7541 Appendix C.  The specification has to   *)
(* agree with them before it judges anything.  Written by                  *)
(* tools/gen_examples.py.                                                  *)
(***************************************************************************)
EXTENDS Hpack

VARIABLE done
T(m) == [tab |-> <<>>, max |-> U32(m)]
D(m) == [tab |-> <<>>, max |-> U32(m), limit |-> U32(m)]

\* C.1  Integers
ASSUME IntEncode(U32(10), 5, 0) = <<10>>
ASSUME IntEncode(U32(1337), 5, 0) = <<31, 154, 10>>
ASSUME IntDecode(<<31, 154, 10>>, 1, 5) = [st |-> "ok", val |-> 1337, len |-> 3]
ASSUME IntEncode(U32(42), 8, 0) = <<42>>

\* C.2.1
ASSUME DecodeAll(D(4096), <<64, 10, 99, 117, 115, 116, 111, 109, 45, 107, 101, 121, 13, 99, 117, 115, 116, 111, 109, 45, 104, 101, 97, 100, 101, 114>>) = [errs |-> {}, n |-> 26, out |-> <<<<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 104, 101, 97, 100, 101, 114>>, 4>>>>, dec |-> [D(4096) EXCEPT !.tab = <<<<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 104, 101, 97, 100, 101, 114>>>>>>]]
ASSUME EncLiteral(T(4096), <<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 104, 101, 97, 100, 101, 114>>, 4).bytes = <<64, 10, 99, 117, 115, 116, 111, 109, 45, 107, 101, 121, 13, 99, 117, 115, 116, 111, 109, 45, 104, 101, 97, 100, 101, 114>>
\* C.2.2
ASSUME DecodeAll(D(4096), <<4, 12, 47, 115, 97, 109, 112, 108, 101, 47, 112, 97, 116, 104>>) = [errs |-> {}, n |-> 14, out |-> <<<<<<58, 112, 97, 116, 104>>, <<47, 115, 97, 109, 112, 108, 101, 47, 112, 97, 116, 104>>, 0>>>>, dec |-> [D(4096) EXCEPT !.tab = <<>>]]
\* C.2.3
ASSUME DecodeAll(D(4096), <<16, 8, 112, 97, 115, 115, 119, 111, 114, 100, 6, 115, 101, 99, 114, 101, 116>>) = [errs |-> {}, n |-> 17, out |-> <<<<<<112, 97, 115, 115, 119, 111, 114, 100>>, <<115, 101, 99, 114, 101, 116>>, 8>>>>, dec |-> [D(4096) EXCEPT !.tab = <<>>]]
ASSUME EncLiteral(T(4096), <<112, 97, 115, 115, 119, 111, 114, 100>>, <<115, 101, 99, 114, 101, 116>>, 8).bytes = <<16, 8, 112, 97, 115, 115, 119, 111, 114, 100, 6, 115, 101, 99, 114, 101, 116>>
\* C.2.4
ASSUME DecodeAll(D(4096), <<130>>) = [errs |-> {}, n |-> 1, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>>>, dec |-> [D(4096) EXCEPT !.tab = <<>>]]
ASSUME EncLiteral(T(4096), <<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 16).bytes = <<130>>
ASSUME EncLiteral(T(4096), <<58, 112, 97, 116, 104>>, <<47, 115, 97, 109, 112, 108, 101, 47, 112, 97, 116, 104>>, 16).bytes = <<4, 12, 47, 115, 97, 109, 112, 108, 101, 47, 112, 97, 116, 104>>

\* C3: three header blocks on one connection, table size 4096
C3d1 == [D(4096) EXCEPT !.tab = <<<<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C3d2 == [D(4096) EXCEPT !.tab = <<<<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C3d3 == [D(4096) EXCEPT !.tab = <<<<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C3d0 == D(4096)
ASSUME DecodeAll(C3d0, <<130, 134, 132, 65, 15, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>) = [errs |-> {}, n |-> 20, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>, dec |-> C3d1]
ASSUME TableSize(C3d1.tab) = 57
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C3d0.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>)
       IN r.b = <<130, 134, 132, 65, 15, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>> /\ r.e.tab = C3d1.tab
ASSUME DecodeAll(C3d1, <<130, 134, 132, 190, 88, 8, 110, 111, 45, 99, 97, 99, 104, 101>>) = [errs |-> {}, n |-> 14, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>, 4>>>>, dec |-> C3d2]
ASSUME TableSize(C3d2.tab) = 110
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C3d1.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>, 4>>>>)
       IN r.b = <<130, 134, 132, 190, 88, 8, 110, 111, 45, 99, 97, 99, 104, 101>> /\ r.e.tab = C3d2.tab
ASSUME DecodeAll(C3d2, <<130, 135, 133, 191, 64, 10, 99, 117, 115, 116, 111, 109, 45, 107, 101, 121, 12, 99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>) = [errs |-> {}, n |-> 29, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>, 4>>>>, dec |-> C3d3]
ASSUME TableSize(C3d3.tab) = 164
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C3d2.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>, 4>>>>)
       IN r.b = <<130, 135, 133, 191, 64, 10, 99, 117, 115, 116, 111, 109, 45, 107, 101, 121, 12, 99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>> /\ r.e.tab = C3d3.tab

\* C4: three header blocks on one connection, table size 4096
C4d1 == [D(4096) EXCEPT !.tab = <<<<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C4d2 == [D(4096) EXCEPT !.tab = <<<<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C4d3 == [D(4096) EXCEPT !.tab = <<<<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>>>]
C4d0 == D(4096)
ASSUME DecodeAll(C4d0, <<130, 134, 132, 65, 140, 241, 227, 194, 229, 242, 58, 107, 160, 171, 144, 244, 255>>) = [errs |-> {}, n |-> 17, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>, dec |-> C4d1]
ASSUME TableSize(C4d1.tab) = 57
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C4d0.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>)
       IN r.b = <<130, 134, 132, 65, 140, 241, 227, 194, 229, 242, 58, 107, 160, 171, 144, 244, 255>> /\ r.e.tab = C4d1.tab
ASSUME DecodeAll(C4d1, <<130, 134, 132, 190, 88, 134, 168, 235, 16, 100, 156, 191>>) = [errs |-> {}, n |-> 12, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>, 4>>>>, dec |-> C4d2]
ASSUME TableSize(C4d2.tab) = 110
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C4d1.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<110, 111, 45, 99, 97, 99, 104, 101>>, 4>>>>)
       IN r.b = <<130, 134, 132, 190, 88, 134, 168, 235, 16, 100, 156, 191>> /\ r.e.tab = C4d2.tab
ASSUME DecodeAll(C4d2, <<130, 135, 133, 191, 64, 136, 37, 168, 73, 233, 91, 169, 125, 127, 137, 37, 168, 73, 233, 91, 184, 232, 180, 191>>) = [errs |-> {}, n |-> 24, out |-> <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>, 4>>>>, dec |-> C4d3]
ASSUME TableSize(C4d3.tab) = 164
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C4d2.tab, max |-> U32(4096)], b |-> <<>>], <<<<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>, 0>>, <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>, 0>>, <<<<58, 112, 97, 116, 104>>, <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>, 0>>, <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 117, 115, 116, 111, 109, 45, 107, 101, 121>>, <<99, 117, 115, 116, 111, 109, 45, 118, 97, 108, 117, 101>>, 4>>>>)
       IN r.b = <<130, 135, 133, 191, 64, 136, 37, 168, 73, 233, 91, 169, 125, 127, 137, 37, 168, 73, 233, 91, 184, 232, 180, 191>> /\ r.e.tab = C4d3.tab

\* C5: three header blocks on one connection, table size 256
C5d1 == [D(256) EXCEPT !.tab = <<<<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>>>, <<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>>>>>]
C5d2 == [D(256) EXCEPT !.tab = <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>>>>>]
C5d3 == [D(256) EXCEPT !.tab = <<<<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>>>>>]
C5d0 == D(256)
ASSUME DecodeAll(C5d0, <<72, 3, 51, 48, 50, 88, 7, 112, 114, 105, 118, 97, 116, 101, 97, 29, 77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84, 110, 23, 104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>) = [errs |-> {}, n |-> 70, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 4>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>, dec |-> C5d1]
ASSUME TableSize(C5d1.tab) = 222
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C5d0.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 4>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>)
       IN r.b = <<72, 3, 51, 48, 50, 88, 7, 112, 114, 105, 118, 97, 116, 101, 97, 29, 77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84, 110, 23, 104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>> /\ r.e.tab = C5d1.tab
ASSUME DecodeAll(C5d1, <<72, 3, 51, 48, 55, 193, 192, 191>>) = [errs |-> {}, n |-> 8, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 0>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>>>, dec |-> C5d2]
ASSUME TableSize(C5d2.tab) = 222
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C5d1.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 0>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>>>)
       IN r.b = <<72, 3, 51, 48, 55, 193, 192, 191>> /\ r.e.tab = C5d2.tab
ASSUME DecodeAll(C5d2, <<136, 193, 97, 29, 77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84, 192, 90, 4, 103, 122, 105, 112, 119, 56, 102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>) = [errs |-> {}, n |-> 98, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>, 4>>, <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>, 4>>>>, dec |-> C5d3]
ASSUME TableSize(C5d3.tab) = 215
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 16 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C5d2.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>, 4>>, <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>, 4>>>>)
       IN r.b = <<136, 193, 97, 29, 77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84, 192, 90, 4, 103, 122, 105, 112, 119, 56, 102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>> /\ r.e.tab = C5d3.tab

\* C6: three header blocks on one connection, table size 256
C6d1 == [D(256) EXCEPT !.tab = <<<<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>>>, <<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>>>>>]
C6d2 == [D(256) EXCEPT !.tab = <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>>>>>]
C6d3 == [D(256) EXCEPT !.tab = <<<<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>>>>>]
C6d0 == D(256)
ASSUME DecodeAll(C6d0, <<72, 130, 100, 2, 88, 133, 174, 195, 119, 26, 75, 97, 150, 208, 122, 190, 148, 16, 84, 212, 68, 168, 32, 5, 149, 4, 11, 129, 102, 224, 130, 166, 45, 27, 255, 110, 145, 157, 41, 173, 23, 24, 99, 199, 143, 11, 151, 200, 233, 174, 130, 174, 67, 211>>) = [errs |-> {}, n |-> 54, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 4>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>, dec |-> C6d1]
ASSUME TableSize(C6d1.tab) = 222
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C6d0.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 50>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 4>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 4>>>>)
       IN r.b = <<72, 130, 100, 2, 88, 133, 174, 195, 119, 26, 75, 97, 150, 208, 122, 190, 148, 16, 84, 212, 68, 168, 32, 5, 149, 4, 11, 129, 102, 224, 130, 166, 45, 27, 255, 110, 145, 157, 41, 173, 23, 24, 99, 199, 143, 11, 151, 200, 233, 174, 130, 174, 67, 211>> /\ r.e.tab = C6d1.tab
ASSUME DecodeAll(C6d1, <<72, 131, 100, 14, 255, 193, 192, 191>>) = [errs |-> {}, n |-> 8, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 0>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>>>, dec |-> C6d2]
ASSUME TableSize(C6d2.tab) = 222
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C6d1.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 55>>, 4>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 49, 32, 71, 77, 84>>, 0>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>>>)
       IN r.b = <<72, 131, 100, 14, 255, 193, 192, 191>> /\ r.e.tab = C6d2.tab
ASSUME DecodeAll(C6d2, <<136, 193, 97, 150, 208, 122, 190, 148, 16, 84, 212, 68, 168, 32, 5, 149, 4, 11, 129, 102, 224, 132, 166, 45, 27, 255, 192, 90, 131, 155, 217, 171, 119, 173, 148, 231, 130, 29, 215, 242, 230, 199, 179, 53, 223, 223, 205, 91, 57, 96, 213, 175, 39, 8, 127, 54, 114, 193, 171, 39, 15, 181, 41, 31, 149, 135, 49, 96, 101, 192, 3, 237, 78, 229, 177, 6, 61, 80, 7>>) = [errs |-> {}, n |-> 79, out |-> <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>, 4>>, <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>, 4>>>>, dec |-> C6d3]
ASSUME TableSize(C6d3.tab) = 215
ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], 19 + f[3]) IN [e |-> x.enc, b |-> a.b \o x.bytes],
                         [e |-> [tab |-> C6d2.tab, max |-> U32(256)], b |-> <<>>], <<<<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>, 0>>, <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<112, 114, 105, 118, 97, 116, 101>>, 0>>, <<<<100, 97, 116, 101>>, <<77, 111, 110, 44, 32, 50, 49, 32, 79, 99, 116, 32, 50, 48, 49, 51, 32, 50, 48, 58, 49, 51, 58, 50, 50, 32, 71, 77, 84>>, 4>>, <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<104, 116, 116, 112, 115, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>, 0>>, <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112>>, 4>>, <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<102, 111, 111, 61, 65, 83, 68, 74, 75, 72, 81, 75, 66, 90, 88, 79, 81, 87, 69, 79, 80, 73, 85, 65, 88, 81, 87, 69, 79, 73, 85, 59, 32, 109, 97, 120, 45, 97, 103, 101, 61, 51, 54, 48, 48, 59, 32, 118, 101, 114, 115, 105, 111, 110, 61, 49>>, 4>>>>)
       IN r.b = <<136, 193, 97, 150, 208, 122, 190, 148, 16, 84, 212, 68, 168, 32, 5, 149, 4, 11, 129, 102, 224, 132, 166, 45, 27, 255, 192, 90, 131, 155, 217, 171, 119, 173, 148, 231, 130, 29, 215, 242, 230, 199, 179, 53, 223, 223, 205, 91, 57, 96, 213, 175, 39, 8, 127, 54, 114, 193, 171, 39, 15, 181, 41, 31, 149, 135, 49, 96, 101, 192, 3, 237, 78, 229, 177, 6, 61, 80, 7>> /\ r.e.tab = C6d3.tab
Init == done = FALSE /\ HpackInit(U32(0), U32(0))
Next == ~done /\ done' = TRUE /\ UNCHANGED hvars
=============================================================================
