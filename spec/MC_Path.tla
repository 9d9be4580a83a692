------------------------------- MODULE MC_Path ------------------------------
(* Clipping a path, one segment at a time.  The machine knows the segments  *)
(* it has passed and what it has written; for every short path over a small *)
(* grid and every mask, what it has written is always the clip of what it   *)
(* has passed, and the composition laws hold.  Every path is printed with   *)
(* all masks and carried out by the code.                                   *)
EXTENDS System, Wide, Json

CONSTANTS At,        \* coordinates of the grid's lines (a sequence)
          MaskAt,    \* coordinates of masks
          Lens       \* lengths of paths

VARIABLES path, m, i, out
vars == << path, m, i, out >>

Grid == { << At[a], At[b] >> : a \in 1..Len(At), b \in 1..Len(At) }
Masks == { [k |-> k, v |-> MaskAt[x]] : k \in 0..3, x \in 1..Len(MaskAt) }
None == [k |-> 9, v |-> 0]

Init ==
  /\ path \in UNION { [1..n -> Grid] : n \in Lens }
  /\ m = None /\ i = 0 /\ out = << >>
Choose ==
  /\ m.k = 9
  /\ m' \in Masks /\ i' = 1 /\ UNCHANGED << path, out >>
\* append, without writing a point twice in a row
Write(o, q) == FoldLeft(LAMBDA acc, p : IF acc # << >> /\ acc[Len(acc)] = p THEN acc ELSE Append(acc, p), o, q)
Pass ==
  /\ i < Len(path)
  /\ out' = Write(out, SegPart(m, path[i], path[i + 1]))
  /\ i' = i + 1 /\ UNCHANGED << path, m >>
Report ==
  /\ m.k = 9
  /\ PrintT("CASE" \o ToJson([ops |-> SetToSeq({ [op |-> "clippath", path |-> path, m |-> x] : x \in Masks })]))
  /\ i' = -1 /\ m' = [None EXCEPT !.k = 8] /\ UNCHANGED << path, out >>
Next == (i = 0 /\ (Choose \/ Report)) \/ (i > 0 /\ Pass)
Spec == Init /\ [][Next]_vars

Passed == IF path = << >> THEN << >> ELSE SubSeq(path, 1, i)
Machine == i > 0 => out = ClipPath(m, Passed)
Bounded == i > 0 => Within(m, out)
\* kept points are points of the path or on the mask's line
Genuine == i > 0 => \A x \in 1..Len(out) : Contains(path, out[x]) \/ Side(m, out[x]) = 0
Twice == i > 0 /\ Len(out) # 1 => ClipPath(m, out) = out
\* inside points are all there, in order
Complete == i > 1 => SelectSeq(Dedup(Passed), LAMBDA p : Side(m, p) = 1) = SelectSeq(out, LAMBDA p : Side(m, p) = 1)
\* backwards, the same but for the rounding of cuts that are not on the grid
AtPoints == \A x \in 1..Len(path) : Side(m, path[x]) >= 0
Backwards == i = Len(path) /\ i > 0 /\ AtPoints => ClipPath(m, Reverse(path)) = Reverse(out)

AtN == << 0, 2, 5 >>
MaskN == << 0, 1, 2, 3, 4, 5 >>
AtX == << <<0,0,0>>, <<21,4748,3647>>, <<42,9496,7295>> >>     \* 0, 2^31-1, 2^32-1
MaskX == << <<0,0,0>>, <<0,0,1>>, <<21,4748,3646>>, <<21,4748,3647>>, <<21,4748,3648>>, <<42,9496,7294>>, <<42,9496,7295>> >>
=============================================================================
