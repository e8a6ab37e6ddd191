#!/usr/bin/env python3
"""Generates spec/HuffmanTable.tla and spec/HpackStatic.tla from the tables of
Go's x/net/http2/hpack (RFC 7541 Appendices A and B), i.e. from a source that
is independent of the repository under test.  Not run by any check: the
generated modules are committed."""
import re, sys
G='/opt/veriftools/go1.27.3/src/vendor/golang.org/x/net/http2/hpack/'
t=open(G+'tables.go').read()
codes=[int(x,16) for x in re.findall(r'0x[0-9a-f]+',t[t.index('huffmanCodes = '):t.index('huffmanCodeLen = ')])]
lens=[int(x) for x in re.findall(r'\b\d+\b',t[t.index('huffmanCodeLen = [256]uint8{')+len('huffmanCodeLen = [256]uint8{'):])][:256]
assert len(codes)==256 and len(lens)==256
codes.append(0x3fffffff); lens.append(30)
o='---------------------------- MODULE HuffmanTable ----------------------------\n'
o+='(* RFC 7541 Appendix B: <<code length in bits, code as a number>> of the      *)\n(* symbols 0..255 and of EOS (256).  TLA+ sequences start at 1: the code of   *)\n(* symbol s is HuffCode[s + 1].                                              *)\n'
o+='HuffCode == <<\n'
rows=['<<%d, %d>>'%(l,c) for l,c in zip(lens,codes)]
for i in range(0,257,6): o+='  '+', '.join(rows[i:i+6])+(',\n' if i+6<257 else '\n')
o+='>>\n=============================================================================\n'
open('/verif/spec/HuffmanTable.tla','w').write(o)
s=open(G+'static_table.go').read()
ents=re.findall(r'pairNameValue\{name: "([^"]*)", value: "([^"]*)"\}|\{Name: "([^"]*)", Value: "([^"]*)"',s)
E=[]
for a in ents:
    E.append((a[0] or a[2],a[1] or a[3]))
E=[e for e in E]
if len(E)!=61: print(len(E)); print(s[:3000]); sys.exit(1)
b=lambda x:'<<'+','.join(str(ord(c)) for c in x)+'>>'
o='---------------------------- MODULE HpackStatic -----------------------------\n(* RFC 7541 Appendix A: the static table, names and values as octets.         *)\nStaticTable == <<\n'
o+=',\n'.join('  \\* %d  %s: %s\n  <<%s, %s>>'%(i+1,n,v,b(n),b(v)) for i,(n,v) in enumerate(E))
o+='\n>>\n=============================================================================\n'
open('/verif/spec/HpackStatic.tla','w').write(o)
