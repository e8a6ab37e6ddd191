#!/usr/bin/env python3
"""Writes spec/HpackExamples.tla: the worked examples of RFC 7541 Appendix C as
assumptions that TLC evaluates."""
def oct_(h):
    return "<<" + ", ".join(str(x) for x in bytes.fromhex(h.replace(" ", ""))) + ">>"
def txt(s):
    return "<<" + ", ".join(str(x) for x in s.encode()) + ">>"
def fields(fs):
    return "<<" + ", ".join("<<%s, %s, %d>>" % (txt(n), txt(v), f) for n, v, f in fs) + ">>"
def tab(es):
    return "<<" + ", ".join("<<%s, %s>>" % (txt(n), txt(v)) for n, v in es) + ">>"

REQ = [
    [(":method", "GET", 0), (":scheme", "http", 0), (":path", "/", 0), (":authority", "www.example.com", 4)],
    [(":method", "GET", 0), (":scheme", "http", 0), (":path", "/", 0), (":authority", "www.example.com", 0), ("cache-control", "no-cache", 4)],
    [(":method", "GET", 0), (":scheme", "https", 0), (":path", "/index.html", 0), (":authority", "www.example.com", 0), ("custom-key", "custom-value", 4)],
]
REQTAB = [
    [(":authority", "www.example.com")],
    [("cache-control", "no-cache"), (":authority", "www.example.com")],
    [("custom-key", "custom-value"), ("cache-control", "no-cache"), (":authority", "www.example.com")],
]
REQSIZE = [57, 110, 164]
D1, D2 = "Mon, 21 Oct 2013 20:13:21 GMT", "Mon, 21 Oct 2013 20:13:22 GMT"
COOKIE = "foo=ASDJKHQKBZXOQWEOPIUAXQWEOIU; max-age=3600; version=1"
URL = "https://www.example.com"
RSP = [
    [(":status", "302", 4), ("cache-control", "private", 4), ("date", D1, 4), ("location", URL, 4)],
    [(":status", "307", 4), ("cache-control", "private", 0), ("date", D1, 0), ("location", URL, 0)],
    [(":status", "200", 0), ("cache-control", "private", 0), ("date", D2, 4), ("location", URL, 0), ("content-encoding", "gzip", 4), ("set-cookie", COOKIE, 4)],
]
RSPTAB = [
    [("location", URL), ("date", D1), ("cache-control", "private"), (":status", "302")],
    [(":status", "307"), ("location", URL), ("date", D1), ("cache-control", "private")],
    [("set-cookie", COOKIE), ("content-encoding", "gzip"), ("date", D2)],
]
RSPSIZE = [222, 222, 215]
STORIES = [
 ("C3", 4096, REQ, REQTAB, REQSIZE, [
  "828684410f7777772e6578616d706c652e636f6d", "828684be58086e6f2d6361636865",
  "828785bf400a637573746f6d2d6b65790c637573746f6d2d76616c7565"]),
 ("C4", 4096, REQ, REQTAB, REQSIZE, [
  "828684418cf1e3c2e5f23a6ba0ab90f4ff", "828684be5886a8eb10649cbf",
  "828785bf408825a849e95ba97d7f8925a849e95bb8e8b4bf"]),
 ("C5", 256, RSP, RSPTAB, RSPSIZE, [
  "4803333032580770726976617465611d4d6f6e2c203231204f637420323031332032303a31333a323120474d546e1768747470733a2f2f7777772e6578616d706c652e636f6d",
  "4803333037c1c0bf",
  "88c1611d4d6f6e2c203231204f637420323031332032303a31333a323220474d54c05a04677a69707738666f6f3d4153444a4b48514b425a584f5157454f50495541585157454f49553b206d61782d6167653d333630303b2076657273696f6e3d31"]),
 ("C6", 256, RSP, RSPTAB, RSPSIZE, [
  "488264025885aec3771a4b6196d07abe941054d444a8200595040b8166e082a62d1bff6e919d29ad171863c78f0b97c8e9ae82ae43d3",
  "4883640effc1c0bf",
  "88c16196d07abe941054d444a8200595040b8166e084a62d1bffc05a839bd9ab77ad94e7821dd7f2e6c7b335dfdfcd5b3960d5af27087f3672c1ab270fb5291f9587316065c003ed4ee5b1063d5007"]),
]
out = []
w = out.append
w("""--------------------------- MODULE HpackExamples ----------------------------
(***************************************************************************)
(* The worked examples of RFC 7541 Appendix C.  The specification has to   *)
(* agree with them before it judges anything.  Written by                  *)
(* tools/gen_examples.py.                                                  *)
(***************************************************************************)
EXTENDS Hpack

VARIABLE done
T(m) == [tab |-> <<>>, max |-> U32(m)]
D(m) == [tab |-> <<>>, max |-> U32(m), limit |-> U32(m)]

\\* C.1  Integers
ASSUME IntEncode(U32(10), 5, 0) = <<10>>
ASSUME IntEncode(U32(1337), 5, 0) = <<31, 154, 10>>
ASSUME IntDecode(<<31, 154, 10>>, 1, 5) = [st |-> "ok", val |-> 1337, len |-> 3]
ASSUME IntEncode(U32(42), 8, 0) = <<42>>
""")
for nm, m, f, h, t in [
    ("C.2.1", 4096, ("custom-key", "custom-header", 4), "400a637573746f6d2d6b65790d637573746f6d2d686561646572", [("custom-key", "custom-header")]),
    ("C.2.2", 4096, (":path", "/sample/path", 0), "040c2f73616d706c652f70617468", []),
    ("C.2.3", 4096, ("password", "secret", 8), "100870617373776f726406736563726574", []),
    ("C.2.4", 4096, (":method", "GET", 0), "82", [])]:
    w("\\* %s" % nm)
    w("ASSUME DecodeAll(D(%d), %s) = [errs |-> {}, n |-> %d, out |-> %s, dec |-> [D(%d) EXCEPT !.tab = %s]]"
      % (m, oct_(h), len(h) // 2, fields([f]), m, tab(t)))
    if nm != "C.2.2":
        # these three are what the encoder writes, too (the other one refers to index 4)
        w("ASSUME EncLiteral(T(%d), %s, %s, %d).bytes = %s" % (m, txt(f[0]), txt(f[1]), f[2] if nm != "C.2.4" else 16, oct_(h)))
w("ASSUME EncLiteral(T(4096), %s, %s, 16).bytes = %s" % (txt(":path"), txt("/sample/path"), oct_("040c2f73616d706c652f70617468")))
for nm, m, blocks, tabs, sizes, hexes in STORIES:
    w("\n\\* %s: three header blocks on one connection, table size %d" % (nm, m))
    huff = 3 if nm in ("C4", "C6") else 0
    for k in range(3):
        w("%sd%d == [D(%d) EXCEPT !.tab = %s]" % (nm, k + 1, m, tab(tabs[k])))
    w("%sd0 == D(%d)" % (nm, m))
    for k in range(3):
        w("ASSUME DecodeAll(%sd%d, %s) = [errs |-> {}, n |-> %d, out |-> %s, dec |-> %sd%d]"
          % (nm, k, oct_(hexes[k]), len(hexes[k]) // 2, fields(blocks[k]), nm, k + 1))
        w("ASSUME TableSize(%sd%d.tab) = %d" % (nm, k + 1, sizes[k]))
        # the best format encoder writes the same
        w("ASSUME LET r == FoldLeft(LAMBDA a, f : LET x == EncLiteral(a.e, f[1], f[2], %d + f[3]) IN [e |-> x.enc, b |-> a.b \\o x.bytes]," % (16 + huff))
        w("                         [e |-> [tab |-> %sd%d.tab, max |-> U32(%d)], b |-> <<>>], %s)" % (nm, k, m, fields(blocks[k])))
        w("       IN r.b = %s /\\ r.e.tab = %sd%d.tab" % (oct_(hexes[k]), nm, k + 1))
w("Init == done = FALSE /\\ HpackInit(U32(0), U32(0))\nNext == ~done /\\ done' = TRUE /\\ UNCHANGED hvars\n" + "=" * 77)
open("/verif/spec/HpackExamples.tla", "w").write("\n".join(out) + "\n")
