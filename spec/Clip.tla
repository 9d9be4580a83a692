-------------------------------- MODULE Clip --------------------------------
(* Clipping by a half-plane.  A mask is [k |-> kind, v |-> coordinate]:      *)
(*   k = 0: keep x >= v   1: keep x <= v   2: keep y >= v   3: keep y <= v   *)
EXTENDS Topology

MaskAxis(m)  == IF m.k <= 1 THEN 1 ELSE 2
OtherAxis(m) == 3 - MaskAxis(m)

\* 1: strictly inside, 0: on the mask's line, -1: outside
Side(m, p) ==
  LET c == p[MaskAxis(m)]
  IN  IF c = m.v THEN 0
      ELSE IF CLt(m.v, c) = (m.k \in {0, 2}) THEN 1 ELSE -1

\* Where the segment from p to q crosses the mask's line, rounded towards p.
Cut(m, p, q) ==
  LET a == MaskAxis(m)  o == OtherAxis(m)
      c == CMove(p[o], NQuo(NMul(CDiff(m.v, p[a]), CDiff(q[o], p[o])), CDiff(q[a], p[a])))
  IN  IF a = 1 THEN << m.v, c >> ELSE << c, m.v >>

\* The part of a segment that counts: nothing unless it enters the inside.
SegPart(m, p, q) ==
  IF Side(m, p) < 1 /\ Side(m, q) < 1 THEN << >>
  ELSE << IF Side(m, p) >= 0 THEN p ELSE Cut(m, p, q),
          IF Side(m, q) >= 0 THEN q ELSE Cut(m, p, q) >>

\* The clipped path: its segments' parts in order.  Whether a point is
\* written twice in a row is of no consequence.
ClipPath(m, path) ==
  Dedup(FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN acc ELSE acc \o SegPart(m, path[i-1], path[i]), << >>, path))

Within(m, path) == \A i \in 1..Len(path) : Side(m, path[i]) >= 0

--------------------------------------------------------------------------
(* A clipped ring: the clipped paths of its edges, in order, and a straight *)
(* path ("gap") wherever one ends away from where the next starts.  Each    *)
(* item is [l |-> label, p |-> path]; labels say which edge an item must be:*)
(* <<n, << >>, << >>>> the remains of edge n, <<0, a, b>> the gap from a to b*)

GapLabel(a, b) == IF PLt(a, b) THEN << 0, a, b >> ELSE << 0, b, a >>

ClipRing(m, t, clipped, ring) ==
  LET js    == SelectSeq([j \in 1..Len(ring.e) |-> j], LAMBDA j : clipped[ring.e[j][1]] # << >>)
      item(j) == LET u == ring.e[j] IN
                 [l |-> << u[1], << >>, << >> >>, p |-> IF u[2] = 1 THEN clipped[u[1]] ELSE Reverse(clipped[u[1]])]
      olds  == [x \in 1..Len(js) |-> item(js[x])]
      next(x) == olds[IF x = Len(olds) THEN 1 ELSE x + 1]
      gap(x) == LET a == End(olds[x].p)  b == First(next(x).p)
                IN  IF a = b THEN << >> ELSE << [l |-> GapLabel(a, b), p |-> << a, b >>] >>
  IN  FoldLeftDomain(LAMBDA acc, x : Append(acc, olds[x]) \o gap(x), << >>, olds)

ItemsArea(items) == SumArea([x \in 1..Len(items) |-> items[x].p])

\* All clipped rings that remain (non-zero area), by region that remains.
ClippedEdges(m, t) == TLCEval([n \in 1..Len(t.edges) |-> ClipPath(m, t.edges[n].p)])
ClippedRings(m, t, clipped, rings) ==
  SelectSeq([i \in 1..Len(rings) |-> ClipRing(m, t, clipped, rings[i])], LAMBDA x : NSgn(ItemsArea(x)) # 0)
ClipExpect(m, t) ==
  LET clipped == ClippedEdges(m, t)
      all == [g \in 1..Len(t.regions) |->
                 [d |-> t.regions[g].d,
                  o |-> TLCEval(ClippedRings(m, t, clipped, t.regions[g].o)),
                  i |-> TLCEval(ClippedRings(m, t, clipped, t.regions[g].i))]]
  IN  TLCEval(SelectSeq(all, LAMBDA r : Len(r.o) > 0))

\* <<label, where>> of every item, in order
ExpectLabels(exp) ==
  FoldLeft(LAMBDA acc, reg : FoldLeft(LAMBDA a2, ring : a2 \o [x \in 1..Len(ring) |-> ring[x].l], acc, reg.o \o reg.i), << >>, exp)

\* Clip can only be represented if no edge ends up bounding three rings.
Clip_domain(t, exp) ==
  /\ LinksOK(t) /\ RingsClosed(t)
  /\ LET ls == TLCEval(ExpectLabels(exp))
     IN  \A x \in 1..Len(ls) : ls[x][1] = 0 => Cardinality({ y \in 1..Len(ls) : ls[y] = ls[x] }) <= 2

--------------------------------------------------------------------------
(* Requirements; exp is ClipExpect(m, before) *)

\* No stored point is outside the mask.
Clip_within(m, t) == \A n \in 1..Len(t.edges) : Within(m, t.edges[n].p)

\* Each edge is what is left of an edge, or runs straight along the mask.
Clip_edges(m, before, t) ==
  LET cs == ToSet(ClippedEdges(m, before))
  IN  \A n \in 1..Len(t.edges) :
        LET p == Dedup(t.edges[n].p)
        IN  \/ p \in cs \/ Reverse(p) \in cs
            \/ Len(p) = 2 /\ Side(m, p[1]) = 0 /\ Side(m, p[2]) = 0

Clip_regions(exp, t) ==
  /\ Len(t.regions) = Len(exp)
  /\ \A g \in 1..Len(exp) : /\ t.regions[g].d = exp[g].d
                            /\ Len(t.regions[g].o) = Len(exp[g].o)
                            /\ Len(t.regions[g].i) = Len(exp[g].i)

\* ring (of t) walks along items from its k-th on
MatchesAt(t, ring, items, k) ==
  LET n == Len(items) IN
  /\ Len(ring.e) = n
  /\ \A j \in 1..n : Dedup(UsePath(t, ring.e[j])) = items[((j + k - 1) % n) + 1].p
Matches(t, ring, items) == \E k \in 0..(Len(items) - 1) : MatchesAt(t, ring, items, k)

RingPairs(t, exp) ==   \* << <<ring, items>>, .. >> for corresponding rings
  FoldLeftDomain(LAMBDA acc, g :
      acc \o [i \in 1..Len(exp[g].o) |-> << t.regions[g].o[i], exp[g].o[i] >>]
          \o [i \in 1..Len(exp[g].i) |-> << t.regions[g].i[i], exp[g].i[i] >>], << >>, exp)

Clip_rings(exp, t) ==
  Clip_regions(exp, t) => \A pr \in ToSet(RingPairs(t, exp)) : Matches(t, pr[1], pr[2])

\* Same label, same edge; same edge, same label.
Clip_sharing(exp, t) ==
  (Clip_regions(exp, t) /\ Clip_rings(exp, t)) =>
  LET prs == TLCEval(RingPairs(t, exp))
      named(pr) == LET n == Len(pr[2])
                       k == IF MatchesAt(t, pr[1], pr[2], 0) THEN 0
                            ELSE CHOOSE k \in 1..(n - 1) : MatchesAt(t, pr[1], pr[2], k)
                   IN  { << pr[2][((j + k - 1) % n) + 1].l, pr[1].e[j][1] >> : j \in 1..n }
      rel == UNION { named(prs[x]) : x \in 1..Len(prs) }
  IN  /\ Cardinality({ y[1] : y \in rel }) = Cardinality(rel)
      /\ Cardinality({ y[2] : y \in rel }) = Cardinality(rel)

--------------------------------------------------------------------------
(* Composition *)

\* Rings that clipping by m leaves alone (nothing outside): the same cycle,
\* except for points inside a run along the mask's line.
WithoutRuns(m, cyc) ==
  LET n == Len(cyc)
      at(i) == cyc[((i + n - 1) % n) + 1]
      keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~(Side(m, at(i)) = 0 /\ Side(m, at(i-1)) = 0 /\ Side(m, at(i+1)) = 0))
      d == Dedup([x \in 1..Len(keep) |-> cyc[keep[x]]])
  IN  IF Len(d) > 1 /\ d[1] = End(d) THEN SubSeq(d, 1, Len(d) - 1) ELSE d
\* at the ends of a run a repeated point may remain to be squeezed out
NoRuns(m, cyc) == WithoutRuns(m, cyc)

SameGeometryBy(f(_), a, b) ==
  /\ Len(a.regions) = Len(b.regions)
  /\ \A g \in 1..Len(a.regions) :
       /\ a.regions[g].d = b.regions[g].d
       /\ Len(a.regions[g].o) = Len(b.regions[g].o)
       /\ Len(a.regions[g].i) = Len(b.regions[g].i)
       /\ \A i \in 1..Len(a.regions[g].o) : SameCycle(f(RingCycle(a, a.regions[g].o[i])), f(RingCycle(b, b.regions[g].o[i])))
       /\ \A i \in 1..Len(a.regions[g].i) : SameCycle(f(RingCycle(a, a.regions[g].i[i])), f(RingCycle(b, b.regions[g].i[i])))
SameGeometry(a, b) == SameGeometryBy(LAMBDA x : x, a, b)
NothingOutside(m, t) ==
  /\ \A n \in UsedEdges(t) : Within(m, t.edges[n].p)
  /\ \A ring \in ToSet(AllRings(t)) : NSgn(RingArea(t, ring)) # 0
Clip_noop(m, a, b) == NothingOutside(m, a) => SameGeometryBy(LAMBDA x : NoRuns(m, x), a, b)

StrictlyIn(ms, p) == \A i \in 1..Len(ms) : Side(ms[i], p) = 1
RingInside(ms, t, ring) == { p \in ToSet(RingCycle(t, ring)) : StrictlyIn(ms, p) }

\* b came from a by clipping with masks ms in some order; data are distinct.
Rect_within(ms, b) == \A n \in UsedEdges(b) : \A i \in 1..Len(ms) : Within(ms[i], b.edges[n].p)
Rect_vertices(ms, a, b) ==
  \A g \in 1..Len(b.regions) :
    LET h  == CHOOSE h \in 1..Len(a.regions) : a.regions[h].d = b.regions[g].d
        ra == RingsOfRegion(a.regions[h])
        rb == RingsOfRegion(b.regions[g])
        after == UNION { RingInside(ms, b, rb[i]) : i \in 1..Len(rb) }
        before == [i \in 1..Len(ra) |-> RingInside(ms, a, ra[i])]
    IN  /\ after \subseteq UNION { before[i] : i \in 1..Len(ra) }
        /\ Cardinality({ i \in 1..Len(ra) : ~(before[i] \subseteq after) }) <= Len(ra) - Len(rb)
Rect_regions(ms, a, b) == \A g \in 1..Len(b.regions) : \E h \in 1..Len(a.regions) : a.regions[h].d = b.regions[g].d

--------------------------------------------------------------------------
(* Clip, executable *)

ClipF(m, t) ==
  LET clipped == ClippedEdges(m, t)
      exp  == ClipExpect(m, t)
      olds == SelectSeq([n \in 1..Len(t.edges) |-> n], LAMBDA n : clipped[n] # << >>)
      ls   == ExpectLabels(exp)
      gaps == FoldLeft(LAMBDA acc, l : IF l[1] # 0 \/ Contains(acc, l) THEN acc ELSE Append(acc, l), << >>, ls)
      paths == [x \in 1..Len(olds) |-> clipped[olds[x]]] \o [x \in 1..Len(gaps) |-> << gaps[x][2], gaps[x][3] >>]
      idx(l) == IF l[1] # 0 THEN IndexIn(olds, l[1]) ELSE Len(olds) + IndexIn(gaps, l)
      use(it) == LET n == idx(it.l) IN << n, IF it.p = paths[n] THEN 1 ELSE 0 >>
      ring(items) == [j \in 1..Len(items) |-> use(items[j])]
  IN  TLCEval(WithLinks(paths, [g \in 1..Len(exp) |->
         [d |-> exp[g].d, o |-> [i \in 1..Len(exp[g].o) |-> ring(exp[g].o[i])],
                          i |-> [i \in 1..Len(exp[g].i) |-> ring(exp[g].i[i])]]]))
=============================================================================
