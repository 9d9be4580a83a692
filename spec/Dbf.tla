-------------------------------- MODULE Dbf ---------------------------------
(* Attribute files: header, fields, records, field values, and a reader.    *)
EXTENDS Bytes

DNone == [k |-> "none"]

NameBytes(d) == LET z == { i \in 1..11 : d[i] = 0 }
                IN  IF z = {} THEN SubSeq(d, 1, 11) ELSE SubSeq(d, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
DbfHeaderBytes(s) == U16(s.b, 8)
DbfRecordBytes(s) == U16(s.b, 10)
DbfHeaderOK(s) ==
  /\ Avail(s) >= 32
  /\ s.b[3] <= 12 /\ s.b[4] <= 31
  /\ DbfHeaderBytes(s) >= 32 /\ DbfHeaderBytes(s) <= Avail(s)
\* Whole descriptors between the fixed header and the records.
Descriptors(s) == [i \in 1..((DbfHeaderBytes(s) - 32) \div 32) |-> Slice(s.b, 32 * i, 32)]
\* Not prescribed: headers with whole descriptors' worth of bytes after the
\* terminator, and records of no bytes at all.
DbfOdd(s) == \E i \in 1..Len(Descriptors(s)) : Descriptors(s)[i][1] = 13
DbfNoBytes(s) == DbfRecordBytes(s) = 0
DbfNamesOK(s, enc) == \A i \in 1..Len(Descriptors(s)) : Decode(enc, NameBytes(Descriptors(s)[i])) # << >>
DbfOpenWhy(s, enc) ==
  IF Avail(s) < 32 THEN IOError("dbf", s)
  ELSE (IF s.b[3] > 12 \/ s.b[4] > 31 \/ DbfHeaderBytes(s) < 32 THEN ParseError("dbf") ELSE {})
       \cup (IF DbfHeaderBytes(s) > Avail(s) THEN IOError("dbf", s)
              ELSE IF DbfHeaderBytes(s) >= 32 /\ ~DbfNamesOK(s, enc) THEN ParseError("dbf") ELSE {})
DbfFields(s, enc) ==
  LET ds == Descriptors(s)
      at == [i \in 1..(Len(ds) + 1) |-> 1 + FoldLeftDomain(LAMBDA a, j : IF j < i THEN a + ds[j][17] ELSE a, 0, ds)]
  IN  [i \in 1..Len(ds) |-> [name |-> Decode(enc, NameBytes(ds[i]))[1], type |-> ds[i][12], at |-> at[i], len |-> ds[i][17]]]

DbfOpened(s, enc) == [s |-> s, enc |-> enc, pos |-> DbfHeaderBytes(s), left |-> U32LE(s.b, 4), fields |-> DbfFields(s, enc), lost |-> FALSE]

DbfNext(st) ==
  LET n == DbfRecordBytes(st.s) IN
  IF st.left = 0 THEN << st, DNone >> ELSE
  IF st.pos + n > Avail(st.s) THEN << [st EXCEPT !.left = 0, !.lost = TRUE], ErrOf(IOError("dbf", st.s)) >> ELSE
  << [st EXCEPT !.pos = @ + n, !.left = @ - 1], [k |-> "rec", bytes |-> Slice(st.s.b, st.pos, n)] >>

--------------------------------------------------------------------------
(* Reading a field: <<text>>, or << >> for an error.                        *)

TrimEnd(b) == LET k == { i \in 1..Len(b) : b[i] # 32 }
              IN  IF k = {} THEN << >> ELSE SubSeq(b, 1, CHOOSE i \in k : \A j \in k : j <= i)
IsDigit(x) == x \in 48..57
AllDigits(b) == b # << >> /\ \A i \in 1..Len(b) : IsDigit(b[i])
IsNumber(b) ==   \* -?digits(.digits)?
  LET u == IF b # << >> /\ b[1] = 45 THEN Tail(b) ELSE b
      dots == { i \in 1..Len(u) : u[i] = 46 }
  IN  IF dots = {} THEN AllDigits(u)
      ELSE LET d == CHOOSE i \in dots : TRUE
           IN  AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(SubSeq(u, d + 1, Len(u)))
TrimStart(b) == LET k == { i \in 1..Len(b) : b[i] # 32 }
                IN  IF k = {} THEN << >> ELSE SubSeq(b, CHOOSE i \in k : \A j \in k : i <= j, Len(b))

FieldText(f, enc, rec) ==
  IF f.at + f.len > Len(rec) THEN << >> ELSE
  LET b == Slice(rec, f.at, f.len) IN
  CASE f.type = 67 -> Decode(enc, TrimEnd(b))
    [] f.type = 78 -> IF IsNumber(TrimStart(b)) THEN << TrimStart(b) >> ELSE << >>
    [] f.type \in {43, 124} -> IF Len(b) < 4 THEN << >> ELSE << Digits(SubSeq(b, 1, 4), << >>) >>
    [] OTHER -> << >>
\* Long fields of more than four bytes: not prescribed.
FieldOdd(f) == f.type \in {43, 124} /\ f.len > 4

RECURSIVE FirstNamed(_, _, _)
FirstNamed(fields, name, i) ==
  IF i > Len(fields) THEN 0 ELSE IF fields[i].name = name THEN i ELSE FirstNamed(fields, name, i + 1)

--------------------------------------------------------------------------
(* Printed form: {name:value; name:value}                                   *)
Text(str) == str
Semi == << 59, 32 >>
DbfInvalid(st, rec) == \E i \in 1..Len(st.fields) : FieldText(st.fields[i], st.enc, rec) = << >>
DbfText(st, rec) ==
  << 123 >> \o
  FoldLeftDomain(LAMBDA acc, i : acc \o (IF i = 1 THEN << >> ELSE Semi) \o st.fields[i].name \o << 58 >>
                                     \o FieldText(st.fields[i], st.enc, rec)[1], << >>, st.fields)
  \o << 125 >>
\* "{Invalid DBF record: "
InvalidPrefix == << 123, 73, 110, 118, 97, 108, 105, 100, 32, 68, 66, 70, 32, 114, 101, 99, 111, 114, 100, 58, 32 >>
=============================================================================
