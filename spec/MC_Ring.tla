------------------------------- MODULE MC_Ring ------------------------------
(* Every small ring, written as points and cut into edges in every way.     *)
(* The machine walks along the ring, deciding after each point whether to   *)
(* cut; the laws of area, winding and the two representations are checked   *)
(* at the end, and every ring is printed and handed to the code.            *)
EXTENDS System, Wide, Json

CONSTANTS At, Lens
VARIABLES ring, i, cut       \* cut: the paths so far, the last one unfinished
vars == << ring, i, cut >>

Grid == { << At[a], At[b] >> : a \in 1..Len(At), b \in 1..Len(At) }
Init ==
  /\ ring \in UNION { { Append(p, p[1]) : p \in [1..n -> Grid] } : n \in Lens }
  /\ i = 1 /\ cut = << << ring[1] >> >>
Extend(c, p) == [c EXCEPT ![Len(c)] = Append(@, p)]
Step ==
  /\ i < Len(ring) /\ i' = i + 1 /\ UNCHANGED ring
  /\ LET c == Extend(cut, ring[i + 1])
     IN  cut' \in (IF i + 1 = Len(ring) THEN { c } ELSE { c, Append(c, << ring[i + 1] >>) })
AsP(p) == [t |-> "p", p |-> p]
AsE(e) == [t |-> "e", e |-> e]
Ring(r) == [op |-> "ring", r |-> r]
Region(r) == [op |-> "build", in |-> << [d |-> 1, o |-> << r >>, i |-> << >>] >>]
\* the ring started elsewhere
Moved(p) == LET q == Rotate(SubSeq(p, 1, Len(p) - 1), 1) IN Append(q, q[1])
Finish ==
  /\ i = Len(ring) /\ i' = i + 1 /\ UNCHANGED << ring, cut >>
  /\ LET more == IF Len(cut) = 1 THEN << Ring(AsP(ring)), Ring(AsP(Reverse(ring))), Ring(AsP(Moved(ring))), Region(AsP(ring)) >> ELSE << >>
     IN  PrintT("CASE" \o ToJson([ops |-> more \o << Ring(AsE(cut)), Region(AsE(cut)) >>]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Done == i >= Len(ring)
SameArea == Done => SumArea(cut) = SArea(ring)
SamePoints == Done => JoinPieces(cut) = ring
Flips == Done => SArea(Reverse(ring)) = NNeg(SArea(ring))
Turns == Done => SArea(Moved(ring)) = SArea(ring)
AtN == << 0, 1, 3 >>
AtX == << <<0,0,0>>, <<21,4748,3648>>, <<42,9496,7295>> >>
AtY == << <<0,0,0>>, <<42,9496,7295>> >>
=============================================================================
