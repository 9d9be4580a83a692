-------------------------------- MODULE Shp ---------------------------------
(* Polygon files: header, records, and a reader as a state machine.         *)
EXTENDS Bytes

NoRec == [k |-> "none"]

ShpHeaderOK(s) ==
  /\ Avail(s) >= 100
  /\ U32BE(s.b, 0) = 9994 /\ U32LE(s.b, 28) = 1000 /\ U32LE(s.b, 32) = 5
ShpOpenWhy(s) == IF Avail(s) < 100 THEN IOError("shp", s) ELSE ParseError("shp")
ShpBox(b) == << Slice(b, 36, 8), Slice(b, 44, 8), Slice(b, 52, 8), Slice(b, 60, 8) >>

(* The reader: how far it is, where it believes the file to end, and whether *)
(* it no longer knows where in the stream it is.                            *)
ShpOpened(s) == [s |-> s, pos |-> 100, end |-> 2 * U32BE(s.b, 24), lost |-> FALSE]

(* A record's rings, or << >> if it is damaged.  b: its contents.           *)
PartStarts(b, p) == [i \in 1..p |-> U32LE(b, 44 + 4 * (i - 1))]
ShpRings(b) ==
  IF Len(b) < 44 THEN << >> ELSE
  IF U32LE(b, 0) # 5 THEN << >> ELSE
  LET p == U32LE(b, 36)  n == U32LE(b, 40) IN
  IF p = 0 \/ p > Len(b) \/ n > Len(b) THEN << >> ELSE
  IF Len(b) # 44 + 4 * p + 16 * n THEN << >> ELSE
  LET at == PartStarts(b, p) \o << n >>
      pt(i) == Slice(b, 44 + 4 * p + 16 * i, 16)
  IN  IF \E i \in 1..p : at[i] > n \/ at[i + 1] - at[i] < 4 THEN << >>
      ELSE [i \in 1..p |-> [j \in 1..(at[i + 1] - at[i]) |-> pt(at[i] + j - 1)]]
\* Points before the first ring: a reader may skip or reject them.
ShpLoose(b) == Len(b) >= 48 /\ U32LE(b, 44) # 0

(* What next() does: << new state, result, may the result be an error too >> *)
ShpStop(st) == [st EXCEPT !.pos = st.end, !.lost = TRUE]
ShpNext(st) ==
  LET s == st.s IN
  IF st.pos >= st.end THEN << st, NoRec, FALSE >> ELSE
  IF st.pos + 8 > Avail(s) THEN << ShpStop(st), ErrOf(IOError("shp", s)), FALSE >> ELSE
  LET n == 2 * U32BE(s.b, st.pos + 4)
      to == st.pos + 8 + n
  IN  IF to > Avail(s) THEN << ShpStop(st), ErrOf(IOError("shp", s) \cup (IF to > st.end THEN ParseError("shp") ELSE {})), FALSE >> ELSE
      IF to > st.end THEN << [st EXCEPT !.pos = to], ErrOf(ParseError("shp")), FALSE >> ELSE
      LET body == Slice(s.b, st.pos + 8, n)
          rings == ShpRings(body)
      IN  IF rings = << >> THEN << [st EXCEPT !.pos = to], ErrOf(ParseError("shp")), FALSE >>
          ELSE << [st EXCEPT !.pos = to],
                  [k |-> "rec", num |-> Slice(s.b, st.pos, 4), rings |-> rings], ShpLoose(body) >>
=============================================================================
