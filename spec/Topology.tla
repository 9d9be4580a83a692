------------------------------ MODULE Topology ------------------------------
(* The state of the system: a topology, i.e. a graph of regions, rings and  *)
(* edges, and the first operation, Build, which makes one from regions.     *)
(*                                                                          *)
(*  topology  [edges |-> <<edge..>>, regions |-> <<region..>>]               *)
(*  edge      [p |-> path, r |-> <<slot, slot>>]                             *)
(*            slot: << >> (no ring) or <<g, k, i>>, the i-th outer (k = 0)  *)
(*            or inner (k = 1) ring of region g                             *)
(*  region    [d |-> data, o |-> <<ring..>>, i |-> <<ring..>>]               *)
(*  ring      [g |-> index of its region, e |-> <<use..>>]                   *)
(*  use       <<edge index, 1 (forward) or 0 (backward)>>                    *)
(*                                                                          *)
(* Links (slots, g, edge indices) are what the implementation holds as raw  *)
(* pointers.  A link that points nowhere sensible is written with 0s.       *)
(*                                                                          *)
(* Requirements are operators named after what they demand; each operation  *)
(* is a relation Xxx_yyy(before, arguments, after), plus a functional        *)
(* version XxxF(before, arguments) that the models execute.                 *)
EXTENDS Geo, FiniteSetsExt

EmptyTopology == [edges |-> << >>, regions |-> << >>]

--------------------------------------------------------------------------
(* Looking around in a topology *)

RingsOfRegion(reg) == reg.o \o reg.i
RingIds(t) == UNION { { <<g, 0, i>> : i \in 1..Len(t.regions[g].o) }
                      \cup { <<g, 1, i>> : i \in 1..Len(t.regions[g].i) } : g \in 1..Len(t.regions) }
HasRing(t, id) ==
  /\ Len(id) = 3 /\ id[1] \in 1..Len(t.regions)
  /\ \/ id[2] = 0 /\ id[3] \in 1..Len(t.regions[id[1]].o)
     \/ id[2] = 1 /\ id[3] \in 1..Len(t.regions[id[1]].i)
RingAt(t, id) == IF id[2] = 0 THEN t.regions[id[1]].o[id[3]] ELSE t.regions[id[1]].i[id[3]]

\* The path a use of an edge walks along.
UsePath(t, u) == IF u[2] = 1 THEN t.edges[u[1]].p ELSE Reverse(t.edges[u[1]].p)
RingPaths(t, ring) == [j \in 1..Len(ring.e) |-> UsePath(t, ring.e[j])]
RingArea(t, ring) == SumArea(RingPaths(t, ring))

\* All rings of all regions, in order.
AllRings(t) == FoldLeft(LAMBDA acc, reg : acc \o RingsOfRegion(reg), << >>, t.regions)
UsedEdges(t) == UNION { { ring.e[j][1] : j \in 1..Len(ring.e) } : ring \in ToSet(AllRings(t)) }

--------------------------------------------------------------------------
(* Links *)

UsesOf(ring, n) == Cardinality({ j \in 1..Len(ring.e) : ring.e[j][1] = n })
NSlots(e) == (IF e.r[1] = << >> THEN 0 ELSE 1) + (IF e.r[2] = << >> THEN 0 ELSE 1)

\* Every ring names the region it belongs to.
RegionLinksOK(t) == \A g \in 1..Len(t.regions) : \A ring \in ToSet(RingsOfRegion(t.regions[g])) : ring.g = g
\* Every use names an edge of this topology.
EdgeLinksOK(t) == \A ring \in ToSet(AllRings(t)) : \A j \in 1..Len(ring.e) :
                     ring.e[j][1] \in 1..Len(t.edges) /\ ring.e[j][2] \in {0, 1}
\* Every edge names exactly the rings that use it: each name stands for a use
\* of its own, and there are as many names as there are uses.
RingLinksOK(t) ==
  /\ \A n \in 1..Len(t.edges) :
       LET s == t.edges[n].r
           a == s[1]  b == s[2]
       IN /\ a = << >> => b = << >>
          /\ a # << >> => HasRing(t, a) /\ UsesOf(RingAt(t, a), n) >= (IF a = b THEN 2 ELSE 1)
          /\ b # << >> => HasRing(t, b) /\ UsesOf(RingAt(t, b), n) >= 1
  /\ SeqSum([n \in 1..Len(t.edges) |-> NSlots(t.edges[n])])
       = SeqSum([k \in 1..Len(AllRings(t)) |-> Len(AllRings(t)[k].e)])
LinksOK(t) == RegionLinksOK(t) /\ EdgeLinksOK(t) /\ RingLinksOK(t)

--------------------------------------------------------------------------
(* Shape of rings *)

\* Consecutive paths join up, and the last ends where the first starts.
JoinsUp(paths) ==
  /\ Len(paths) > 0
  /\ \A j \in 1..Len(paths) : Len(paths[j]) >= 2
  /\ \A j \in 1..Len(paths) : End(paths[j]) = First(paths[IF j = Len(paths) THEN 1 ELSE j + 1])
RingsClosed(t) == \A ring \in ToSet(AllRings(t)) : JoinsUp(RingPaths(t, ring))

\* The points of a ring, walked once around, without its repeated end point
\* and without immediate repetitions.
RingCycle(t, ring) ==
  LET pts == FoldLeft(LAMBDA acc, p : acc \o p, << >>, RingPaths(t, ring))
      d   == Dedup(pts)
  IN  IF Len(d) > 1 /\ d[1] = End(d) THEN SubSeq(d, 1, Len(d) - 1) ELSE d
SameCycle(a, b) ==
  /\ Len(a) = Len(b)
  /\ \/ a = b
     \/ \E k \in 1..Len(a) : Rotate(a, k) = b

--------------------------------------------------------------------------
(* Input regions and rings *)

\* A ring as a user gives it: [t |-> "p", p |-> points] or [t |-> "e", e |-> paths].
Pieces(r) == IF r.t = "e" THEN r.e ELSE SegSeq(r.p)
InArea(r) == IF r.t = "e" THEN SumArea(r.e) ELSE SArea(r.p)

ZeroLength(path) == Len(path) < 2 \/ \A i \in 2..Len(path) : path[i] = path[1]
\* What the ring contributes to a topology
Kept(r) == SelectSeq(Pieces(r), LAMBDA p : ~ZeroLength(p))
KeptRings(rs) == SelectSeq(rs, LAMBDA r : NSgn(InArea(r)) # 0)
KeptRegions(in) == SelectSeq(in, LAMBDA reg : Len(KeptRings(reg.o)) > 0)

HasLongZero(in) == \E reg \in ToSet(in) : \E r \in ToSet(reg.o \o reg.i) :
                     r.t = "e" /\ \E p \in ToSet(r.e) : Len(p) > 2 /\ ZeroLength(p)

\* One name for a path and its reverse.
Undirected(path) == { path, Reverse(path) }
\* Paths for which the stored direction is determined.
Directable(path) == First(path) # End(path) \/ NSgn(SArea(path)) # 0

KeptPaths(in) ==
  FoldLeft(LAMBDA acc, reg :
      FoldLeft(LAMBDA acc2, r : acc2 \o Kept(r), acc, KeptRings(reg.o) \o KeptRings(reg.i)),
    << >>, KeptRegions(in))

\* No path bounds more than two rings.
Build_domain(in) ==
  LET ps == TLCEval(KeptPaths(in))
      cs == TLCEval([i \in 1..Len(ps) |-> Canon(ps[i])])
  IN  \A i \in 1..Len(cs) : Cardinality({ j \in 1..Len(cs) : cs[j] = cs[i] }) <= 2

--------------------------------------------------------------------------
(* Build: what must be true of the topology made from regions `in` *)

\* The regions that are left, in order, with their data ...
Build_regions(in, t) ==
  LET ks == KeptRegions(in)
  IN  /\ Len(t.regions) = Len(ks)
      /\ \A g \in 1..Len(ks) : t.regions[g].d = ks[g].d

WalksLike(t, ring, r) ==
  SelectSeq(RingPaths(t, ring), LAMBDA p : ~ZeroLength(p)) = Kept(r)
RingsWalkLike(t, rings, rs) ==
  /\ Len(rings) = Len(rs)
  /\ \A i \in 1..Len(rs) : WalksLike(t, rings[i], rs[i])

\* ... with their rings, in their role and order, walking along the same paths.
Build_rings(in, t) ==
  LET ks == KeptRegions(in)
  IN  Len(t.regions) = Len(ks) =>
      \A g \in 1..Len(ks) : /\ RingsWalkLike(t, t.regions[g].o, KeptRings(ks[g].o))
                            /\ RingsWalkLike(t, t.regions[g].i, KeptRings(ks[g].i))
Build_nozero(t) == \A n \in 1..Len(t.edges) : Len(t.edges[n].p) >= 2 /\ (Len(t.edges[n].p) = 2 => t.edges[n].p[1] # t.edges[n].p[2])

\* Each path is stored once ...
StoredOnce(t) ==
  LET es == SelectSeq(t.edges, LAMBDA e : Directable(e.p))
  IN  Cardinality({ Undirected(es[n].p) : n \in 1..Len(es) }) = Len(es)
\* ... in its canonical direction ...
StoredCanonically(t) == \A n \in 1..Len(t.edges) : Directable(t.edges[n].p) => t.edges[n].p = Canon(t.edges[n].p)
\* ... every path is stored ...
StoredAll(in, t) ==
  { Undirected(p) : p \in ToSet(KeptPaths(in)) } \subseteq { Undirected(t.edges[n].p) : n \in 1..Len(t.edges) }
\* ... and nothing is stored that no ring uses.
NoOrphans(t) == \A n \in 1..Len(t.edges) : t.edges[n].r[1] # << >>

--------------------------------------------------------------------------
(* Build, executable *)

\* The slots of edge n: the rings that use it, in order.
\* fills in slots and region links for regions whose rings are sequences of uses
WithLinks(paths, regs) ==     \* regs: <<[d, o: <<uses..>>, i: <<uses..>>]>>
  LET ids == FoldLeftDomain(LAMBDA acc, g :
               acc \o [i \in 1..Len(regs[g].o) |-> << <<g, 0, i>>, regs[g].o[i] >>]
                   \o [i \in 1..Len(regs[g].i) |-> << <<g, 1, i>>, regs[g].i[i] >>], << >>, regs)
      uses(n) == FoldLeft(LAMBDA acc, x :
                   acc \o [q \in 1..Cardinality({ j \in 1..Len(x[2]) : x[2][j][1] = n }) |-> x[1]], << >>, ids)
      slots(n) == LET u == uses(n) IN << IF Len(u) >= 1 THEN u[1] ELSE << >>, IF Len(u) >= 2 THEN u[2] ELSE << >> >>
  IN  [edges   |-> [n \in 1..Len(paths) |-> [p |-> paths[n], r |-> slots(n)]],
       regions |-> [g \in 1..Len(regs) |->
          [d |-> regs[g].d,
           o |-> [i \in 1..Len(regs[g].o) |-> [g |-> g, e |-> regs[g].o[i]]],
           i |-> [i \in 1..Len(regs[g].i) |-> [g |-> g, e |-> regs[g].i[i]]]]]]

IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

BuildF(in) ==
  LET ks  == KeptRegions(in)
      all == TLCEval(KeptPaths(in))
      tab == TLCEval(FoldLeft(LAMBDA acc, p : LET c == Canon(p) IN IF Contains(acc, c) THEN acc ELSE Append(acc, c), << >>, all))
      use(p) == << IndexIn(tab, Canon(p)), IF Canon(p) = p THEN 1 ELSE 0 >>
      ring(r) == LET k == Kept(r) IN [j \in 1..Len(k) |-> use(k[j])]
      rings(rs) == LET k == KeptRings(rs) IN [j \in 1..Len(k) |-> ring(k[j])]
  IN  TLCEval(WithLinks(tab, [g \in 1..Len(ks) |-> [d |-> ks[g].d, o |-> rings(ks[g].o), i |-> rings(ks[g].i)]]))
=============================================================================
