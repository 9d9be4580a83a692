----------------------------- MODULE Normalize ------------------------------
(* Normalization: the same map, written down in the one canonical way.      *)
EXTENDS Topology

Seg(a, b) == << a, b >>
Undir(s) == { s[1], s[2] }

\* The paths of a ring, walked clockwise if it is an outer ring and
\* counter-clockwise if it is an inner one (the region is on the right).
Wound(t, ring, kind) ==    \* [p |-> paths, n |-> edge indices in the same order]
  LET ps == TLCEval(RingPaths(t, ring))
      a  == NSgn(SumArea(ps))
      ok == IF kind = 0 THEN a >= 0 ELSE a <= 0
      n  == Len(ps)
  IN  TLCEval(IF ok THEN [p |-> ps, n |-> [j \in 1..n |-> ring.e[j][1]]]
              ELSE [p |-> [j \in 1..n |-> Reverse(ps[n + 1 - j])], n |-> [j \in 1..n |-> ring.e[n + 1 - j][1]]])

\* The region on the other side of edge n, seen from region g (0: none).
Other(t, n, g) ==
  LET s == t.edges[n].r
  IN  IF s[2] = << >> THEN 0 ELSE IF s[1][1] = g THEN s[2][1] ELSE s[1][1]

\* All directed segments of a region, each with the region across it:
\* <<a, b, other>>.  As a sequence, because an invalid map may repeat some.
RingBorder(t, g, ring, kind) ==
  LET w == Wound(t, ring, kind)
  IN  FoldLeftDomain(LAMBDA acc, j : acc \o LET p == w.p[j]  x == Other(t, w.n[j], g)
                                            IN [i \in 1..(Len(p) - 1) |-> << p[i], p[i+1], x >>], << >>, w.p)
RegionBorder(t, g) ==
  LET reg == t.regions[g]
      o == FoldLeft(LAMBDA acc, ring : acc \o RingBorder(t, g, ring, 0), << >>, reg.o)
  IN  FoldLeft(LAMBDA acc, ring : acc \o RingBorder(t, g, ring, 1), o, reg.i)
\* The outline: without what borders only the region itself.
Outline(t, g) == { s \in ToSet(RegionBorder(t, g)) : s[3] # g }
Outlines(t) == TLCEval([g \in 1..Len(t.regions) |-> TLCEval(Outline(t, g))])
Dir(segs) == { << s[1], s[2] >> : s \in segs }

--------------------------------------------------------------------------
(* Valid topologies *)

\* Every straight piece lies in one edge only, and has a length.
SegmentsOnce(t) ==
  LET es == UsedEdges(t)
      segs(n) == { Undir(s) : s \in Segs(t.edges[n].p) }
  IN  /\ \A n \in es : Cardinality(segs(n)) = Len(t.edges[n].p) - 1
      /\ \A n \in es : \A s \in segs(n) : Cardinality(s) = 2
      /\ Cardinality(UNION { segs(n) : n \in es }) = FoldSet(LAMBDA n, acc : acc + Len(t.edges[n].p) - 1, 0, es)

\* Interiors do not overlap: the two uses of an edge run in opposite directions.
Disjoint(t) ==
  LET border(g) == LET b == TLCEval(RegionBorder(t, g)) IN [i \in 1..Len(b) |-> << b[i][1], b[i][2] >>]
      all == TLCEval(FoldLeftDomain(LAMBDA acc, g : acc \o border(g), << >>, t.regions))
  IN  Cardinality(ToSet(all)) = Len(all)

\* A point where a region's outline passes more than once is fine only if all
\* borders there are borders with nothing and nothing was joined there.
PinchPoints(out) ==
  LET starts == { s[1] : s \in out }
  IN  IF Cardinality(starts) = Cardinality(out) THEN {}
      ELSE { p \in starts : Cardinality({ s \in out : s[1] = p }) > 1 }
\* ends of edges that border only region g
SelfEnds(t, g) ==
  UNION { { First(t.edges[n].p), End(t.edges[n].p) } :
          n \in { n \in UsedEdges(t) : t.edges[n].r[2] # << >> /\ t.edges[n].r[1][1] = g /\ t.edges[n].r[2][1] = g } }
NoBadPinch(t, outs) ==
  \A g \in 1..Len(t.regions) :
    LET pp == PinchPoints(outs[g])
    IN  pp # {} => /\ \A s \in outs[g] : (s[1] \in pp \/ s[2] \in pp) => s[3] = 0
                   /\ SelfEnds(t, g) = {}
NoPinch(outs) == \A g \in 1..Len(outs) : PinchPoints(outs[g]) = {}

ValidMap(t) ==
  /\ LinksOK(t) /\ RingsClosed(t)
  /\ \A ring \in ToSet(AllRings(t)) : NSgn(RingArea(t, ring)) # 0
  /\ SegmentsOnce(t)
  /\ Disjoint(t)
\* Follows the outline from segment s; nxt maps a start point to its segment.
RECURSIVE Follow(_, _, _)
Follow(nxt, s, acc) ==
  LET n == nxt[s[2]] IN IF n = acc[1] THEN acc ELSE Follow(nxt, n, Append(acc, n))
RECURSIVE Cycles(_, _)
Cycles(nxt, left) ==
  IF left = {} THEN {}
  ELSE LET s == CHOOSE s \in left : TRUE
           c == Follow(nxt, s, << s >>)
       IN  { c } \cup Cycles(nxt, left \ ToSet(c))

NextMap(out) == TLCEval([p \in { s[1] : s \in out } |-> CHOOSE s \in out : s[1] = p])
OutlineCycles(out) == TLCEval(Cycles(NextMap(out), out))
CycleArea(c) == FoldLeft(LAMBDA a, s : NAdd(a, Cross(s[1], s[2])), NZero, c)
\* Every region covers some area, and no joint outline of its rings is flat.
SomeArea(out) ==
  /\ NSgn(FoldSet(LAMBDA s, a : NAdd(a, Cross(s[1], s[2])), NZero, out)) > 0
  /\ PinchPoints(out) = {} => \A c \in OutlineCycles(out) : NSgn(CycleArea(c)) # 0
Normalize_domain(t) ==
  /\ ValidMap(t)
  /\ LET outs == Outlines(t) IN /\ NoBadPinch(t, outs)
                               /\ \A g \in 1..Len(outs) : outs[g] # {} /\ SomeArea(outs[g])

--------------------------------------------------------------------------
(* Requirements on the result n of normalizing t *)

Normalize_regions(t, n) ==
  /\ Len(n.regions) = Len(t.regions)
  /\ \A g \in 1..Len(t.regions) : n.regions[g].d = t.regions[g].d

\* Each region has the same outline, every piece of it once.  Taken as
\* written, without adjusting directions.
AsWritten(t, g) ==
  FoldLeft(LAMBDA acc, ring : acc \o FoldLeft(LAMBDA a2, p : a2 \o SegSeq(p), << >>, RingPaths(t, ring)),
           << >>, RingsOfRegion(t.regions[g]))
Normalize_outline(t, n) ==
  Normalize_regions(t, n) =>
  \A g \in 1..Len(t.regions) :
    LET w == TLCEval(AsWritten(n, g))
    IN  ToSet(w) = Dir(Outline(t, g)) /\ Cardinality(ToSet(w)) = Len(w)

\* No two rings of a region (or one ring twice) share an edge.
Canon_own(n) == \A k \in 1..Len(n.edges) :
  LET s == n.edges[k].r IN s[1] # << >> /\ s[2] # << >> => s[1][1] # s[2][1]
\* Consecutive edges of a ring border different regions.
Canon_fewest(n) ==
  \A g \in 1..Len(n.regions) : \A ring \in ToSet(RingsOfRegion(n.regions[g])) :
    Len(ring.e) > 1 =>
      \A j \in 1..Len(ring.e) :
        Other(n, ring.e[j][1], g) # Other(n, ring.e[IF j = Len(ring.e) THEN 1 ELSE j + 1][1], g)
Canon_winding(n) ==
  \A g \in 1..Len(n.regions) :
    /\ \A ring \in ToSet(n.regions[g].o) : NSgn(RingArea(n, ring)) > 0
    /\ \A ring \in ToSet(n.regions[g].i) : NSgn(RingArea(n, ring)) < 0
StartOf(t, ring) == First(UsePath(t, ring.e[1]))
Canon_start(n) ==
  \A ring \in ToSet(AllRings(n)) :
    IF Len(ring.e) = 1 THEN StartOf(n, ring) = PMin(UsePath(n, ring.e[1]))
    ELSE StartOf(n, ring) = PMin([j \in 1..Len(ring.e) |-> First(UsePath(n, ring.e[j]))])
Canon_order(n) ==
  \A g \in 1..Len(n.regions) : \A rs \in { n.regions[g].o, n.regions[g].i } :
    \A i \in 2..Len(rs) : PLe(StartOf(n, rs[i-1]), StartOf(n, rs[i]))
\* A border is one edge: no straight piece is stored twice.
Canon_shared(n) == SegmentsOnce(n)

\* Equal but for the numbering of edges
View(t) ==
  [d |-> [g \in 1..Len(t.regions) |-> t.regions[g].d],
   o |-> [g \in 1..Len(t.regions) |-> [i \in 1..Len(t.regions[g].o) |-> RingPaths(t, t.regions[g].o[i])]],
   i |-> [g \in 1..Len(t.regions) |-> [i \in 1..Len(t.regions[g].i) |-> RingPaths(t, t.regions[g].i[i])]],
   e |-> { << t.edges[k].p, t.edges[k].r >> : k \in 1..Len(t.edges) }]
SameTopology(a, b) == Len(a.edges) = Len(b.edges) /\ View(a) = View(b)

--------------------------------------------------------------------------
(* Normalize, executable, for maps without pinches: cut each region's        *)
(* outline where the neighbour changes.                                     *)

\* A cycle of segments as a ring: edges cut where s[3] changes, from the
\* smallest node (or point, if there are none).
CycleRing(c) ==
  LET n == Len(c)
      prev(i) == c[IF i = 1 THEN n ELSE i - 1]
      nodes == { i \in 1..n : prev(i)[3] # c[i][3] }
      cand  == IF nodes = {} THEN 1..n ELSE nodes
      first == CHOOSE i \in cand : \A j \in cand : PLe(c[i][1], c[j][1])
      r == Rotate(c, first - 1)
      add(acc, s) == IF acc # << >> /\ acc[Len(acc)].x = s[3]
                     THEN [acc EXCEPT ![Len(acc)].p = Append(@, s[2])]
                     ELSE Append(acc, [x |-> s[3], p |-> << s[1], s[2] >>])
      es == FoldLeft(add, << >>, r)
  IN  [j \in 1..Len(es) |-> es[j].p]
PathsStart(r) == First(r[1])
SortRings(rs) == SetToSortSeq(rs, LAMBDA a, b : PLt(PathsStart(a), PathsStart(b)))

NormalizedRegion(out, d) ==
  LET rings == { CycleRing(c) : c \in OutlineCycles(out) }
      asRing(r) == [t |-> "e", e |-> r]
      o == SortRings({ r \in rings : NSgn(SumArea(r)) > 0 })
      i == SortRings({ r \in rings : NSgn(SumArea(r)) < 0 })
  IN  [d |-> d, o |-> [k \in 1..Len(o) |-> asRing(o[k])], i |-> [k \in 1..Len(i) |-> asRing(i[k])]]
NormalizeF(t) ==
  LET outs == Outlines(t)
  IN  BuildF([g \in 1..Len(t.regions) |-> NormalizedRegion(outs[g], t.regions[g].d)])
=============================================================================
