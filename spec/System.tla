------------------------------- MODULE System -------------------------------
(* Everything that happens to topologies, and what each operation owes its  *)
(* caller.  Requirement names start with the property they belong to.       *)
EXTENDS Normalize, Clip, Simplify, Show

CONSTANT Props      \* the properties being checked

\* {name} if the property is being checked and the requirement does not hold.
Req(prop, name, cond) == IF prop \in Props THEN (IF cond THEN {} ELSE { name }) ELSE {}

LinkReqs(t) == Req("C03", "C03.ring_names_region", RegionLinksOK(t))
         \cup Req("C03", "C03.use_names_edge", EdgeLinksOK(t))
         \cup Req("C03", "C03.edge_names_rings", EdgeLinksOK(t) => RingLinksOK(t))
\* Nothing else can be said about a topology whose uses do not name edges.
Walkable(t) == EdgeLinksOK(t)
WalkReqs(t, props) == UNION { Req(p, p \o ".walkable", Walkable(t)) : p \in props }

BuildReqs(in, t) ==
  LinkReqs(t) \cup WalkReqs(t, {"C01", "C02"}) \cup
  (IF ~Walkable(t) THEN {} ELSE
     Req("C01", "C01.regions", Build_regions(in, t))
     \cup Req("C01", "C01.rings", Build_rings(in, t))
     \cup Req("C01", "C01.zero_length", Build_nozero(t))
     \cup Req("C02", "C02.once", StoredOnce(t))
     \cup Req("C02", "C02.direction", StoredCanonically(t))
     \cup Req("C02", "C02.orphans", NoOrphans(t))
     \cup Req("C02", "C02.all", StoredAll(in, t))
     \cup Req("C18", "C18.build", Build_rings(in, t)))

NormalizeReqs(t, n, unchanged) ==
  LinkReqs(n) \cup WalkReqs(n, {"C02", "C04", "C05", "C06"}) \cup Req("C04", "C04.unchanged", unchanged) \cup
  (IF ~Walkable(n) THEN {} ELSE
     Req("C02", "C02.once", StoredOnce(n))
     \cup Req("C02", "C02.direction", StoredCanonically(n))
     \cup Req("C02", "C02.orphans", NoOrphans(n))
     \cup Req("C04", "C04.regions", Normalize_regions(t, n))
     \cup Req("C04", "C04.outline", Normalize_outline(t, n))
     \cup Req("C04", "C04.closed", RingsClosed(n))
     \cup Req("C05", "C05.closed", RingsClosed(n))
     \cup (IF ~LinksOK(n) THEN Req("C05", "C05.links", FALSE) ELSE
        Req("C05", "C05.own", Canon_own(n))
        \cup Req("C05", "C05.fewest", Canon_fewest(n))
        \cup Req("C05", "C05.winding", Canon_winding(n))
        \cup Req("C05", "C05.start", Canon_start(n))
        \cup Req("C05", "C05.order", Canon_order(n))
        \cup Req("C05", "C05.shared", Canon_shared(n))
        \cup Req("C06", "C06.canonical", (Normalize_regions(t, n) /\ NoPinch(Outlines(t))) => SameTopology(n, NormalizeF(t)))))

ClipReqs(m, t, exp, u, unchanged) ==
  LinkReqs(u) \cup WalkReqs(u, {"C07", "C08"}) \cup Req("C08", "C08.unchanged", unchanged) \cup
  (IF ~Walkable(u) THEN {} ELSE
     Req("C07", "C07.within", Clip_within(m, u))
     \cup Req("C07", "C07.edges", Clip_edges(m, t, u))
     \cup Req("C07", "C07.rings", Clip_rings(exp, u))
     \cup Req("C08", "C08.regions", Clip_regions(exp, u))
     \cup Req("C08", "C08.rings", Clip_rings(exp, u))
     \cup Req("C08", "C08.closed", RingsClosed(u))
     \cup Req("C08", "C08.sharing", Clip_sharing(exp, u))
     \cup Req("C09", "C09.noop", Clip_noop(m, t, u)))

SimplifyReqs(t, thr, u) ==
  LinkReqs(u) \cup
  Req("C10", "C10.structure", Simplify_structure(t, u))
  \cup Req("C10", "C10.ends", Simplify_ends(t, u))
  \cup Req("C10", "C10.closed", Simplify_closed(t, u))
  \cup Req("C11", "C11.order", Simplify_vw(t, thr, u))

ClipPathReqs(m, path, out) ==
  Req("C07", "C07.path_within", Within(m, out))
  \cup Req("C07", "C07.path", Dedup(out) = ClipPath(m, path))

--------------------------------------------------------------------------
(* Rings on their own.  r: a ring as given; o: what the library says of it. *)

JoinPieces(ps) ==
  FoldLeft(LAMBDA acc, p : IF acc # << >> /\ p # << >> /\ acc[Len(acc)] = p[1]
                           THEN acc \o SubSeq(p, 2, Len(p)) ELSE acc \o p, << >>, ps)
RingPoints(r) == IF r.t = "p" THEN r.p ELSE JoinPieces(r.e)

RingReqs(r, o) ==
  LET a == InArea(r)
      pts == RingPoints(r)
  IN  Req("C12", "C12.area", o.area2 = NAbs(a))
      \cup Req("C12", "C12.winding", o.cw = (NSgn(a) >= 0))
      \cup Req("C12", "C12.both", o.area2b = NAbs(a) /\ o.cwb = (NSgn(a) >= 0))
      \cup Req("C12", "C12.signed", o.signed = SArea(pts))
      \cup Req("C12", "C12.area_fn", o.farea2 = NAbs(SArea(pts)))
      \cup Req("C12", "C12.winding_fn", o.fcw = (NSgn(SArea(pts)) >= 0))
      \cup Req("C18", "C18.points", o.points = pts)
      \cup Req("C18", "C18.edges", o.edges = Pieces(r))
      \cup Req("C18", "C18.area", o.area2 = NAbs(a) /\ o.cw = (NSgn(a) >= 0))
      \* points -> edges -> points is the identity
      \cup Req("C18", "C18.roundtrip", r.t = "p" => JoinPieces(o.edges) = r.p /\ o.back = r.p)
=============================================================================
