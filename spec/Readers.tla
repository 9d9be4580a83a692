------------------------------ MODULE Readers -------------------------------
(* The readers a program can open and step through, and what each step owes *)
(* its caller.  Requirement names start with the property they belong to.   *)
EXTENDS Shapefile, Quantize, Geo

CONSTANT Props
RReq(prop, name, cond) == IF prop \in Props THEN (IF cond THEN {} ELSE { name }) ELSE {}
RReqs(props, name, cond) == UNION { RReq(p, p \o name, cond) : p \in props }

(* Reader states.  "closed" stands for nothing open or nothing prescribed.  *)
Closed == [k |-> "closed"]
HasShp(kind) == kind \in {"shp", "join", "geo"}
HasDbf(kind) == kind \in {"dbf", "join", "geo"}

\* May (must) the files be opened as kind?
MayOpen(kind, shp, dbf, enc) ==
  /\ HasShp(kind) => ShpHeaderOK(shp)
  /\ HasDbf(kind) => DbfHeaderOK(dbf) /\ DbfNamesOK(dbf, enc)
MustOpen(kind, shp, dbf, enc) == MayOpen(kind, shp, dbf, enc) /\ (HasDbf(kind) => ~DbfNoBytes(dbf))
OpenWhy(kind, shp, dbf, enc) ==
  IF HasShp(kind) /\ ~ShpHeaderOK(shp) THEN ShpOpenWhy(shp) ELSE DbfOpenWhy(dbf, enc)
\* Headers nothing is said about
Unsaid(kind, dbf) == HasDbf(kind) /\ DbfHeaderOK(dbf) /\ DbfOdd(dbf)

Opened(kind, shp, dbf, enc) ==
  [k |-> kind,
   shp |-> IF HasShp(kind) THEN ShpOpened(shp) ELSE << >>,
   dbf |-> IF HasDbf(kind) THEN DbfOpened(dbf, enc) ELSE << >>]

\* Which properties speak about what a reader of this kind returns
Owners(kind) == CASE kind = "shp" -> {"C13", "C16"}
                  [] kind = "dbf" -> {"C14", "C16"}
                  [] kind = "join" -> {"C15", "C16"}
                  [] kind = "geo" -> {"C17"}

(* Memory a step may use on top of what it had: a small multiple of the     *)
(* files' size and a fixed amount.                                          *)
MemoryOK(size, mem) == mem <= 16 * size + 300000

--------------------------------------------------------------------------
(* An error: e.f, e.w, e.kind say what it is, e.inner is the description of *)
(* the innermost error, e.text its printed form, e.desc whether the error's *)
(* own description is the innermost's, e.cause whether it has a cause.      *)
ErrorReqs(kind, why, e) ==
  RReq("C20", "C20.cause", << e.f, e.w, e.kind >> \in why)
  \cup RReq("C20", "C20.text", e.text = (IF e.w = "io" THEN e.inner ELSE "Parse error: " \o e.inner))
  \cup RReq("C20", "C20.chain", e.desc /\ e.cause = (IF kind \in {"shp", "dbf"} THEN e.w = "io" ELSE e.f # "join"))

--------------------------------------------------------------------------
(* What opening returned, o: err, or the header's contents.                 *)
OpenReqs(kind, shp, dbf, enc, names, o) ==
  LET may == MayOpen(kind, shp, dbf, enc)  must == MustOpen(kind, shp, dbf, enc) IN
  IF o.k = "err" THEN RReqs(Owners(kind), ".open", ~must) \cup (IF may THEN {} ELSE ErrorReqs(kind, OpenWhy(kind, shp, dbf, enc), o.e))
  ELSE IF ~may THEN RReqs(Owners(kind), ".reject", FALSE)
  ELSE
    (IF HasShp(kind) THEN RReqs(Owners(kind), ".box", o.box = ShpBox(shp.b)) ELSE {})
    \cup (IF kind = "shp" THEN RReq("C13", "C13.length", o.half = Slice(shp.b, 24, 4)) ELSE {})
    \cup (IF HasDbf(kind)
          THEN LET fs == DbfFields(dbf, enc)
               IN  RReqs(Owners(kind), ".fields", o.fields = [i \in 1..Len(fs) |-> fs[i].name])
                   \cup RReqs(Owners(kind), ".lookup",
                          o.found = [i \in 1..Len(names) |-> FirstNamed(fs, names[i], 1) > 0])
          ELSE {})
    \cup (IF kind = "dbf" THEN RReq("C14", "C14.counts", o.n = Slice(dbf.b, 4, 4) /\ o.len = DbfRecordBytes(dbf)) ELSE {})

--------------------------------------------------------------------------
(* Progress: bytes of the polygon file, records of the attribute file; and  *)
(* the total the file announces.  After an error behind which nothing can   *)
(* be found, nothing is left.                                               *)
Far(st) == IF st.k = "shp" THEN st.shp.pos ELSE U32LE(st.dbf.s.b, 4) - st.dbf.left
Total(st) == IF st.k = "shp" THEN st.shp.end ELSE U32LE(st.dbf.s.b, 4)
FarReqs(st, n) == RReq("C22", "C22.progress", IF Far(st) >= Huge THEN n >= Huge ELSE n = Far(st))

(* Bytes taken from the streams, << polygon, attribute >>: what was returned *)
(* and not one more.                                                        *)
TookReqs(st, took) ==
  (IF HasShp(st.k) /\ took[1] >= 0 /\ ~st.shp.lost THEN RReq("C23", "C23.polygons", took[1] = st.shp.pos) ELSE {})
  \cup (IF HasDbf(st.k) /\ took[2] >= 0 /\ ~st.dbf.lost THEN RReq("C23", "C23.attributes", took[2] = st.dbf.pos) ELSE {})

--------------------------------------------------------------------------
Val(f, enc, rec) == LET t == FieldText(f, enc, rec) IN IF t = << >> THEN [k |-> "err"] ELSE [k |-> "ok", v |-> t[1]]
ValOK(v, f, enc, rec) == FieldOdd(f) \/ v = Val(f, enc, rec)
ValsOK(d, rec, vals) ==
  /\ Len(vals) = Len(d.fields)
  /\ \A i \in 1..Len(vals) : ValOK(vals[i], d.fields[i], d.enc, rec)
NamedOK(d, rec, names, vals) ==
  \A i \in 1..Len(names) :
    LET n == FirstNamed(d.fields, names[i], 1)
    IN  IF n = 0 THEN vals[i].k = "none" ELSE ValOK(vals[i], d.fields[n], d.enc, rec)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DbfTextOK(d, rec, text) ==
  \/ \E i \in 1..Len(d.fields) : FieldOdd(d.fields[i])
  \/ IF DbfInvalid(d, rec) THEN StartsWith(text, InvalidPrefix) /\ text[Len(text)] = 125
     ELSE text = DbfText(d, rec)
\* Numbers are printed the way the language prints them: cs has their texts.
Cat(ss, sep) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i], << >>, ss)
PtText(c) == << 40 >> \o c[1] \o << 44 >> \o c[2] \o << 41 >>
RingText(cs) == << 91 >> \o Cat([i \in 1..Len(cs) |-> PtText(cs[i])], << 44 >>) \o << 93 >>
\* "ShapefileRecord(" "; rings: "
RecPrefix == << 83, 104, 97, 112, 101, 102, 105, 108, 101, 82, 101, 99, 111, 114, 100, 40 >>
RingsLabel == << 59, 32, 114, 105, 110, 103, 115, 58, 32 >>
TextReqs(d, rec, o) ==
  RReq("C19", "C19.attributes", DbfTextOK(d, rec, o.dtext))
  \cup RReq("C19", "C19.polygon_ring", o.rtext = [i \in 1..Len(o.coords) |-> RingText(o.coords[i])])
  \cup RReq("C19", "C19.record", o.text = RecPrefix \o o.dtext \o RingsLabel
                                       \o Cat([i \in 1..Len(o.coords) |-> RingText(o.coords[i])], Semi) \o << 41 >>)

--------------------------------------------------------------------------
(* Integer geometry: rings of pairs of four-byte numbers.                   *)
QArea(ring) == SArea([i \in 1..Len(ring) |-> << CoordOf(ring[i][1]), CoordOf(ring[i][2]) >>])
FlatPairs(rings, qs) ==   \* <<point, image>>, ring by ring
  FlattenSeq([i \in 1..Len(rings) |-> [j \in 1..Len(rings[i]) |-> << rings[i][j], qs[i][j] >>]])
\* Where ring i of the record went: outer and inner rings keep their order, so
\* the two lists are merged by winding; a ring without area counts as clockwise.
RECURSIVE Merges(_, _, _)
Merges(n, o, i) ==    \* all ways of merging o and i into a list of n that put each ring where its winding says
  IF n = 0 THEN (IF o = << >> /\ i = << >> THEN { << >> } ELSE {}) ELSE
  (IF o # << >> /\ NSgn(QArea(o[1])) >= 0 THEN { << o[1] >> \o m : m \in Merges(n - 1, Tail(o), i) } ELSE {})
  \cup (IF i # << >> /\ NSgn(QArea(i[1])) < 0 THEN { << i[1] >> \o m : m \in Merges(n - 1, o, Tail(i)) } ELSE {})
SameShape(rings, qs) == Len(qs) = Len(rings) /\ \A k \in 1..Len(qs) : Len(qs[k]) = Len(rings[k])
GeoRingsOK(box, rings, o, i) ==
  \E qs \in Merges(Len(rings), o, i) :
    SameShape(rings, qs) /\ \A k \in 1..Len(qs) : \A j \in 1..Len(qs[k]) : PtOK(box, rings[k][j], qs[k][j])
GeoDomain(box, rings) == BoxOK(box) /\ \A k \in 1..Len(rings) : \A j \in 1..Len(rings[k]) : PtFinite(rings[k][j])
GeoMerged(box, rings, o, i) ==
  CHOOSE qs \in Merges(Len(rings), o, i) :
    SameShape(rings, qs) /\ \A k \in 1..Len(qs) : \A j \in 1..Len(qs[k]) : PtOK(box, rings[k][j], qs[k][j])

--------------------------------------------------------------------------
(* What a step must do: << new state, expected result, may it be an error >> *)
Step(st) ==
  CASE st.k = "shp" -> LET r == ShpNext(st.shp) IN << [st EXCEPT !.shp = r[1]], r[2], r[3] >>
    [] st.k = "dbf" -> LET r == DbfNext(st.dbf) IN << [st EXCEPT !.dbf = r[1]], r[2], FALSE >>
    [] OTHER -> JoinNext(st)

\* One requirement, named after what was expected.
StepReqs(st, exp, loose, names, o) ==
  LET who == Owners(st.k)
      name == IF exp.k = "none" THEN ".end" ELSE IF exp.k = "err" THEN ".error" ELSE ".record"
  IN  IF o.k = "err" THEN RReqs(who, name, exp.k = "err" \/ loose)
           \cup (IF exp.k = "err" \/ loose THEN ErrorReqs(st.k, IF exp.k = "err" THEN exp.why ELSE ParseError("shp"), o.e) ELSE {})
      ELSE IF o.k # exp.k THEN RReqs(who, name, FALSE)
      ELSE IF o.k = "none" THEN {}
      ELSE
        (IF st.k = "shp" THEN RReqs(who, ".number", o.num = exp.num) \cup RReqs(who, ".rings", o.rings = exp.rings) ELSE {})
        \cup (IF st.k = "join" THEN RReqs(who, ".rings", o.rings = exp.rings) ELSE {})
        \cup (IF HasDbf(st.k)
              THEN RReqs(who, ".bytes", o.bytes = exp.bytes)
                   \cup RReqs(who, ".values", ValsOK(st.dbf, exp.bytes, o.vals))
                   \cup RReq("C20", "C20.field", o.perr)
                   \cup RReqs(who, ".by_name", NamedOK(st.dbf, exp.bytes, names, o.named))
              ELSE {})
        \cup (IF "text" \in DOMAIN o THEN TextReqs(st.dbf, exp.bytes, o) ELSE {})
        \cup (IF st.k = "geo" /\ GeoDomain(ShpBox(st.shp.s.b), exp.rings)
              THEN RReq("C17", "C17.geometry", GeoRingsOK(ShpBox(st.shp.s.b), exp.rings, o.o, o.i)) ELSE {})
=============================================================================
