-------------------------------- MODULE Geo ---------------------------------
(* Points, paths and area.  A point is <<x, y>>; (0,0) is the top left, so  *)
(* positive area is clockwise.  A path is a sequence of points.             *)
EXTENDS Arith, Sequences, SequencesExt, FiniteSets, TLC

PLt(p, q) == CLt(p[1], q[1]) \/ (p[1] = q[1] /\ CLt(p[2], q[2]))
PLe(p, q) == p = q \/ PLt(p, q)

\* The smallest (leftmost, then topmost) of a non-empty sequence of points.
PMin(s) == FoldLeft(LAMBDA m, p : IF PLt(p, m) THEN p ELSE m, s[1], s)

First(s) == s[1]
End(s)  == s[Len(s)]

Cross(p, q) == CDet(p[1], p[2], q[1], q[2])

\* 2 * signed area under a path (shoelace); over a closed path or the paths
\* of a ring it is 2 * the enclosed area, positive iff clockwise.
SArea(path) ==
  FoldLeftDomain(LAMBDA a, i : IF i = 1 THEN a ELSE NAdd(a, Cross(path[i-1], path[i])), NZero, path)
SumArea(paths) == FoldLeft(LAMBDA a, p : NAdd(a, SArea(p)), NZero, paths)

\* 2 * area of a triangle, unsigned.
TriArea(a, b, c) == NAbs(CTri(a[1], a[2], b[1], b[2], c[1], c[2]))

\* Directed segments of a path, as a set and as a sequence.
SegSeq(path) == [i \in 1..(Len(path) - 1) |-> << path[i], path[i+1] >>]
Segs(path)   == { << path[i], path[i+1] >> : i \in 1..(Len(path) - 1) }
Flip(seg)    == << seg[2], seg[1] >>

\* The one way an undirected path is written down: from its smaller end, or,
\* if it is closed, clockwise.
Canon(path) ==
  LET a == First(path)  b == End(path)
  IN  IF PLt(a, b) \/ (a = b /\ NSgn(SArea(path)) >= 0) THEN path ELSE Reverse(path)

Dedup(s) == FoldLeft(LAMBDA acc, p : IF acc # << >> /\ acc[Len(acc)] = p THEN acc ELSE Append(acc, p), << >>, s)

Rotate(s, k) == IF Len(s) = 0 THEN s ELSE [i \in 1..Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
SeqSum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
=============================================================================
