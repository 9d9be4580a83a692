------------------------------- MODULE Encode -------------------------------
(* Writing files: the inverse of Shp and Dbf.  A polygon record is a        *)
(* sequence of rings of 16-byte points; an attribute row is its bytes.      *)
EXTENDS Shapefile

Zeros(n) == [i \in 1..n |-> 0]
LE16(n) == << n % 256, n \div 256 >>
LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
BE32(n) == Reverse(LE32(n))
Join(ss) == FoldLeft(LAMBDA acc, s : acc \o s, << >>, ss)

ShpBody(rings) ==
  LET n == FoldLeft(LAMBDA a, r : a + Len(r), 0, rings)
      start(i) == FoldLeftDomain(LAMBDA a, j : IF j < i THEN a + Len(rings[j]) ELSE a, 0, rings)
  IN  LE32(5) \o Zeros(32) \o LE32(Len(rings)) \o LE32(n)
      \o Join([i \in 1..Len(rings) |-> LE32(start(i))])
      \o Join([i \in 1..Len(rings) |-> Join(rings[i])])
ShpRecord(num, rings) == LET b == ShpBody(rings) IN BE32(num) \o BE32(Len(b) \div 2) \o b
ShpFile(box, recs) ==
  LET body == Join([k \in 1..Len(recs) |-> ShpRecord(k, recs[k])])
  IN  BE32(9994) \o Zeros(20) \o BE32((100 + Len(body)) \div 2) \o LE32(1000) \o LE32(5) \o box \o Zeros(32) \o body

\* fields: <<[name |-> bytes (at most 10), type, len]>>; rows: as long as the fields and a flag
Descriptor(f) == f.name \o Zeros(11 - Len(f.name)) \o << f.type >> \o Zeros(4) \o << f.len >> \o Zeros(15)
DbfFile(fields, rows) ==
  LET width == 1 + FoldLeft(LAMBDA a, f : a + f.len, 0, fields)
  IN  << 3, 115, 10, 5 >> \o LE32(Len(rows)) \o LE16(33 + 32 * Len(fields)) \o LE16(width) \o Zeros(20)
      \o Join([k \in 1..Len(fields) |-> Descriptor(fields[k])]) \o << 13 >> \o Join(rows)
=============================================================================
