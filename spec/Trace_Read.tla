----------------------------- MODULE Trace_Read -----------------------------
(* Checks recorded sessions with the readers against Readers.  One case per *)
(* line: some files and a history of operations (opening a reader on files, *)
(* possibly damaged, and stepping through it), each with what it returned.  *)
EXTENDS Readers, Wide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l,
          st,     \* the reader in use
          opened, \* the operation that opened it: <<number, size of its files>>
          seen,   \* points and their images so far
          bad, note
vars == << c, l, st, opened, seen, bad, note >>

Op(k) == Cases[c].ops[k]
Has(o, f) == f \in DOMAIN o
Stream(d) == IF d.f = 0 THEN NoStream ELSE [b |-> Damaged(Cases[c].files[d.f], d), fail |-> d.fail]
Size(o) == (IF Has(o, "shp") THEN Len(Stream(o.shp).b) ELSE 0) + (IF Has(o, "dbf") THEN Len(Stream(o.dbf).b) ELSE 0)
Kind(o) == o.kind

PanicReqs(kind) == RReqs(Owners(kind) \cup {"C16", "C20", "C23"} \cup (IF kind \in {"shp", "dbf"} THEN {"C22"} ELSE {}), ".panic", FALSE) \cup RReqs({"C19"}, ".panic", FALSE)
MemReqs(o, size) == RReq("C16", "C16.memory", MemoryOK(size, o.mem))

OpenStep(o) ==
  LET kind == o.kind
      shp == IF Has(o, "shp") THEN Stream(o.shp) ELSE NoStream
      dbf == IF Has(o, "dbf") THEN Stream(o.dbf) ELSE NoStream
      mem == MemReqs(o, Size(o))
  IN  IF Has(o, "panic") THEN [st |-> Closed, bad |-> PanicReqs(kind), note |-> "ok"]
      ELSE IF Unsaid(kind, dbf) THEN [st |-> Closed, bad |-> mem, note |-> "header with bytes after its terminator"]
      ELSE [st |-> IF o.out.k = "ok" /\ MayOpen(kind, shp, dbf, o.enc) THEN Opened(kind, shp, dbf, o.enc) ELSE Closed,
            bad |-> mem \cup OpenReqs(kind, shp, dbf, o.enc, o.names, o.out)
                    \cup (IF Has(o.out, "far") /\ MayOpen(kind, shp, dbf, o.enc) THEN FarReqs(Opened(kind, shp, dbf, o.enc), o.out.far) ELSE {})
                    \cup (IF o.out.k = "ok" /\ MayOpen(kind, shp, dbf, o.enc) THEN TookReqs(Opened(kind, shp, dbf, o.enc), o.took) ELSE {}), note |-> "ok"]

NextStep(o) ==
  LET op == Op(opened[1])
      mem == IF Has(o, "mem") THEN MemReqs(o, opened[2]) ELSE {} IN
  IF Has(o, "panic") THEN [st |-> Closed, bad |-> PanicReqs(op.kind), note |-> "ok"]
  ELSE IF st.k = "closed" THEN [st |-> st, bad |-> mem, note |-> "ok"]
  ELSE LET r == Step(st)
       IN  [st |-> r[1], bad |-> mem \cup StepReqs(st, r[2], r[3], op.names, o.out)
                                   \cup (IF Has(o, "far") THEN FarReqs(r[1], o.far) ELSE {})
                                   \cup TookReqs(r[1], o.took), note |-> "ok"]

\* Points and images a step adds, for the order requirement
Images(o) ==
  IF st.k # "geo" \/ Has(o, "panic") THEN << >>
  ELSE IF o.out.k # "rec" \/ Step(st)[2].k # "rec" THEN << >>
  ELSE LET box == ShpBox(st.shp.s.b)  rings == Step(st)[2].rings
       IN  IF GeoDomain(box, rings) /\ GeoRingsOK(box, rings, o.out.o, o.out.i)
           THEN FlatPairs(rings, GeoMerged(box, rings, o.out.o, o.out.i)) ELSE << >>

Init == c \in 1..Len(Cases) /\ l = 0 /\ st = Closed /\ opened = << 0, 0 >> /\ seen = << >> /\ bad = {} /\ note = "ok"
Next ==
  /\ l < Len(Cases[c].ops) /\ bad = {}
  /\ l' = l + 1 /\ c' = c
  /\ LET o == Op(l + 1) IN
     IF o.op = "read"
     THEN LET r == OpenStep(o)
          IN  /\ st' = r.st /\ bad' = r.bad /\ note' = r.note /\ opened' = << l + 1, Size(o) >> /\ seen' = << >>
              /\ (r.note = "ok" \/ PrintT(<< "NOTE", r.note, o.kind, Cases[c].fam >>))
     ELSE LET r == NextStep(o)  all == seen \o Images(o)
          IN  /\ st' = r.st /\ note' = r.note /\ opened' = opened
              /\ seen' = all
              /\ bad' = r.bad \cup (IF all # seen THEN RReq("C17", "C17.order", OrderOK(all)) ELSE {})
Spec == Init /\ [][Next]_vars

\* A case's states are told apart by how far it is.
Progress == << c, l, bad >>
Accepted == bad = {}
Alias == [case |-> Cases[c].id, fam |-> Cases[c].fam, op |-> l, kind |-> IF l = 0 THEN "" ELSE Op(l).op, bad |-> bad]
=============================================================================
