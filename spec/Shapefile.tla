----------------------------- MODULE Shapefile ------------------------------
(* A polygon file and an attribute file read side by side.                  *)
EXTENDS Shp, Dbf

(* One file has more records than the other; or the polygon file's error or,*)
(* if it has none, the attribute file's.                                    *)
JoinError == { << "join", "join", "" >> }
JoinWhy(a, b) ==
  IF a[2].k = "none" \/ b[2].k = "none" THEN JoinError
  ELSE IF a[2].k = "err" THEN a[2].why
  ELSE b[2].why \cup (IF a[3] THEN ParseError("shp") ELSE {})

JoinNext(st) ==
  LET a == ShpNext(st.shp)  b == DbfNext(st.dbf)
      st2 == [st EXCEPT !.shp = a[1], !.dbf = b[1]]
  IN  IF a[2].k = "none" /\ b[2].k = "none" THEN << st2, NoRec, FALSE >>
      ELSE IF a[2].k = "rec" /\ b[2].k = "rec"
           THEN << st2, [k |-> "rec", rings |-> a[2].rings, bytes |-> b[2].bytes], a[3] >>
           ELSE << st2, ErrOf(JoinWhy(a, b)), FALSE >>
=============================================================================
