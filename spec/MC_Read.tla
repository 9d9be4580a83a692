------------------------------- MODULE MC_Read ------------------------------
(* Readers on every damaged version of small files: cut at every byte, every *)
(* byte replaced by several values, streams that fail at every byte, and     *)
(* pairs of files of different lengths.  Checked: what the readers promise. *)
(* Every session is printed (many to a case) and carried out by the code.   *)
EXTENDS Encode, Readers, Wide, Json

CONSTANTS Kinds,      \* subset of {"shp", "dbf", "join"}
          Counts,     \* numbers of records
          Hurts,      \* subset of {"none", "cut", "fail", "low", "high", "next"}
          Side        \* "both", or which file of a pair is damaged: "shp", "dbf"
VARIABLES kind, ns, nd, hurt, at, st, log
vars == << kind, ns, nd, hurt, at, st, log >>

\* Doubles without special values
Num(k) == << 0, 0, 0, 0, 0, 0, k, 64 >>
Pt(x, y) == Num(x) \o Num(y)
Tri(k) == << Pt(k, 1), Pt(k, 9), Pt(k + 9, 9), Pt(k, 1) >>
Quad(k) == << Pt(k, 1), Pt(k + 2, 1), Pt(k + 2, 3), Pt(k, 3), Pt(k, 1) >>
Shapes == << << Tri(1) >>, << Quad(2), Tri(20) >>, << Tri(40) >> >>
Box == Num(0) \o Num(0) \o Num(100) \o Num(100)
Fields == << [name |-> << 65 >>, type |-> 67, len |-> 2], [name |-> << 66, 66 >>, type |-> 78, len |-> 3] >>
Rows == << << 32, 65, 66, 32, 49, 50 >>, << 32, 67, 32, 45, 49, 46 >>, << 32, 195, 169, 32, 32, 55 >> >>
ShpOf == TLCEval([n \in 0..3 |-> ShpFile(Box, SubSeq(Shapes, 1, n))])
DbfOf == TLCEval([n \in 0..3 |-> DbfFile(Fields, SubSeq(Rows, 1, n))])
ShpB == ShpOf[ns]
DbfB == DbfOf[nd]

\* The damage: of the polygon file if at is below its length, else of the attribute file.
ShpHurt == HasShp(kind) /\ (kind # "join" \/ Side # "dbf")
DbfHurt == HasDbf(kind) /\ (kind # "join" \/ Side # "shp")
ShpLen == IF ShpHurt THEN Len(ShpB) ELSE 0
Places == 0..(ShpLen + (IF DbfHurt THEN Len(DbfB) ELSE 0) - 1)
Given(f, b, mine, where) ==
  LET here == mine /\ hurt # "none"
      old == IF mine THEN b[where + 1] ELSE 0
      new == CASE hurt = "low" -> 0 [] hurt = "high" -> 255 [] OTHER -> (old + 1) % 256
  IN  [f |-> f, cut |-> IF here /\ hurt = "cut" THEN where ELSE -1,
       patch |-> IF here /\ hurt \in {"low", "high", "next"} THEN << << where, new >> >> ELSE << >>,
       fail |-> IF here /\ hurt = "fail" THEN where ELSE -1, once |-> FALSE, chunks |-> << >>]
ShpGiven == Given(1, ShpB, at < ShpLen, at)
DbfGiven == Given(2, DbfB, at >= ShpLen, at - ShpLen)
Stream(b, g) == [b |-> Damaged(b, g), fail |-> g.fail]
ShpS == Stream(ShpB, ShpGiven)
DbfS == Stream(DbfB, DbfGiven)

\* Damage that may have many records, or records of no bytes, is stepped through
\* for so long
MaxSteps == 12
Session ==
  LET base == [op |-> "read", kind |-> kind, enc |-> "utf8", names |-> << << 66, 66 >>, << 67 >> >>, show |-> FALSE, max |-> MaxSteps]
  IN  CASE kind = "shp" -> base @@ [shp |-> ShpGiven]
        [] kind = "dbf" -> base @@ [dbf |-> DbfGiven]
        [] OTHER -> base @@ [shp |-> ShpGiven, dbf |-> DbfGiven]

Init ==
  /\ kind \in Kinds /\ ns \in (IF HasShp(kind) THEN Counts ELSE {0}) /\ nd \in (IF HasDbf(kind) THEN Counts ELSE {0})
  /\ hurt \in Hurts /\ at \in (IF hurt = "none" THEN {0} ELSE Places)
  /\ st = Closed /\ log = << >>
Open ==
  /\ st = Closed /\ log = << >>
  /\ LET s == IF HasShp(kind) THEN ShpS ELSE NoStream
         d == IF HasDbf(kind) THEN DbfS ELSE NoStream
     IN  IF MayOpen(kind, s, d, "utf8") THEN st' = Opened(kind, s, d, "utf8") /\ log' = << >>
         ELSE st' = Closed /\ log' = << ErrOf(OpenWhy(kind, s, d, "utf8")) >>
  /\ PrintT("CASE" \o ToJson([files |-> << ShpB, DbfB >>, key |-> << kind, ns, nd >>, ops |-> << Session >>]))
  /\ UNCHANGED << kind, ns, nd, hurt, at >>
Read ==
  /\ st # Closed /\ Len(log) < MaxSteps
  /\ LET r == Step(st) IN st' = r[1] /\ log' = Append(log, r[2])
  /\ UNCHANGED << kind, ns, nd, hurt, at >>
Next == Open \/ Read
Spec == Init /\ [][Next]_vars

Going == st # Closed
\* Reading what was written gives it back.
Whole == Going /\ hurt = "none" =>
  LET n == IF kind = "shp" THEN ns ELSE IF kind = "dbf" THEN nd ELSE IF ns < nd THEN nd ELSE ns
  IN  \A k \in 1..Len(log) :
        IF k > n THEN log[k].k = "none"
        ELSE IF kind = "join" /\ (k > ns \/ k > nd) THEN log[k].k = "err"
        ELSE /\ log[k].k = "rec"
             /\ HasShp(kind) => log[k].rings = Shapes[k]
             /\ HasDbf(kind) => log[k].bytes = Rows[k]
\* An error has a reason: damage in that file, or files of different lengths.
Caused == \A k \in 1..Len(log) : log[k].k = "err" =>
  /\ log[k].why # {}
  /\ \A w \in log[k].why :
        /\ w[1] = "shp" => hurt # "none" /\ ShpHurt /\ at < ShpLen
        /\ w[1] = "dbf" => hurt # "none" /\ DbfHurt /\ at >= ShpLen
        /\ w[1] = "join" => kind = "join" /\ (ns # nd \/ hurt # "none")
        /\ w[2] = "io" => w[3] = (IF hurt = "fail" THEN "failed" ELSE "end")
        /\ (w[2] = "parse" => hurt \notin {"cut", "fail"})
\* A reader is at its end exactly if its progress has reached what the file announces;
\* progress is made by every step but those at the end.
Counted == (Going /\ kind # "join") =>
  /\ (Far(st) >= Total(st)) <=> (Step(st)[2].k = "none")
  /\ Step(st)[2].k = "none" \/ Far(Step(st)[1]) > Far(st)
  /\ (log # << >> /\ log[Len(log)].k = "none") => Far(st) >= Total(st)
\* The end is final, and comes.
Final == \A k \in 2..Len(log) : log[k - 1].k = "none" => log[k].k = "none"
Ends == (Going /\ HasShp(kind) /\ ~HasDbf(kind) /\ Len(log) = MaxSteps) => log[MaxSteps].k = "none"
\* Records that lie before the damage are still returned.
RECURSIVE ShpStart(_)
ShpStart(k) == IF k = 1 THEN 100 ELSE ShpStart(k - 1) + Len(ShpRecord(k - 1, Shapes[k - 1]))
DbfStart(k) == 33 + 32 * Len(Fields) + 6 * (k - 1)
ShpBefore(k) == k <= ns /\ (~ShpHurt \/ at >= ShpLen \/ hurt = "none" \/ (at >= 100 /\ ShpStart(k + 1) <= at))
DbfBefore(k) == k <= nd /\ (~DbfHurt \/ at < ShpLen \/ hurt = "none" \/ (at - ShpLen >= DbfStart(1) /\ DbfStart(k + 1) <= at - ShpLen))
Before == Going => \A k \in 1..Len(log) :
   (HasShp(kind) => ShpBefore(k)) /\ (HasDbf(kind) => DbfBefore(k)) =>
     /\ log[k].k = "rec"
     /\ HasShp(kind) => log[k].rings = Shapes[k]
     /\ HasDbf(kind) => log[k].bytes = Rows[k]
\* Truncation and failure only ever take records away: one error, then the end.
Lost == (Going /\ hurt \in {"cut", "fail"} /\ kind # "join") =>
   /\ Cardinality({ k \in 1..Len(log) : log[k].k = "err" }) <= 1
   /\ \A k \in 1..Len(log) : log[k].k = "rec" => (HasShp(kind) => log[k].rings = Shapes[k]) /\ (HasDbf(kind) => log[k].bytes = Rows[k])
\* A damaged byte in one record of polygons does not reach into others, unless it is in a length.
InLength(k) == ShpHurt /\ at < ShpLen /\ k <= ns /\ at >= ShpStart(k) + 4 /\ at < ShpStart(k) + 8
Contained == (Going /\ kind = "shp" /\ hurt \in {"low", "high", "next"} /\ at >= 100) =>
   \/ \E k \in 1..ns : InLength(k)
   \/ \A k \in 1..Len(log) : k <= ns /\ ~(ShpStart(k) <= at /\ at < ShpStart(k + 1)) => log[k].k = "rec" /\ log[k].rings = Shapes[k]
\* An error or the k-th of both, never something else.
Paired == (Going /\ kind = "join") => \A k \in 1..Len(log) :
   log[k].k = "rec" => \/ hurt \in {"low", "high", "next"}
                       \/ log[k].rings = Shapes[k] /\ log[k].bytes = Rows[k]
=============================================================================
