----------------------------- MODULE Trace_Topo -----------------------------
(* Checks recorded executions against System.  The trace file has one case  *)
(* per line; a case is a history of operations, each with what it was given *)
(* (arguments, and the number of the operation whose result it worked on)   *)
(* and what it returned.  Every case is a behaviour of its own.             *)
EXTENDS System, Wide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c,      \* which case
          l,      \* how many of its operations have happened
          bad,    \* requirements the last one broke
          note    \* "ok", or why nothing was required of it
vars == << c, l, bad, note >>

Op(k)   == Cases[c].ops[k]
Has(o, f) == f \in DOMAIN o
Good(k) == Has(Op(k), "post")
\* The topology operation k left behind: what was recorded or, for Build, what
\* the specification says, so that a later operation is judged by the map the
\* caller described.
\* (Whether a path of three or more equal points is kept is not prescribed.)
Left(k) == IF Op(k).op = "build" /\ Build_domain(Op(k).in) /\ ~HasLongZero(Op(k).in) THEN BuildF(Op(k).in) ELSE Op(k).post

Panics(props) == UNION { Req(p, p \o ".panic", FALSE) : p \in props }
R(b, n) == [bad |-> b, note |-> n]
OOD == R({}, "out of domain")
\* Whatever was asked for, a topology that is returned has exact links.
Links(o) == R(IF Has(o, "post") THEN LinkReqs(o.post) ELSE {}, "out of domain")
Skip == R({}, "skipped")

\* outcome of operation k: requirements it broke and a note
DoBuild(o) ==
  IF ~Build_domain(o.in) THEN Links(o)
  ELSE IF Has(o, "panic") THEN R(Panics({"C01", "C02", "C03", "C06", "C18"}), "ok")
  ELSE R(BuildReqs(o.in, o.post), "ok")

DoNormalize(o) ==
  IF Has(o, "skip") \/ ~Good(o.src) THEN Skip ELSE
  LET t == Left(o.src) IN
  IF ~Normalize_domain(t) THEN (IF LinksOK(t) THEN Links(o) ELSE OOD)
  ELSE IF Has(o, "panic") THEN R(Panics({"C02", "C03", "C04", "C05", "C06"}), "ok")
  ELSE R(NormalizeReqs(t, o.post, o.same), "ok")

DoClip(o) ==
  IF Has(o, "skip") \/ ~Good(o.src) THEN Skip ELSE
  LET t == Left(o.src) IN
  IF ~LinksOK(t) \/ ~RingsClosed(t) THEN OOD ELSE
  LET exp == ClipExpect(o.m, t) IN
  IF ~Clip_domain(t, exp) THEN Links(o)
  ELSE IF Has(o, "panic") THEN R(Panics({"C03", "C07", "C08", "C09"}), "ok")
  ELSE R(ClipReqs(o.m, t, exp, o.post, o.same), "ok")

DoSimplify(o) ==
  IF Has(o, "skip") \/ ~Good(o.src) THEN Skip ELSE
  LET t == Op(o.src).post IN
  IF ~Simplify_domain(t) THEN OOD
  ELSE IF Has(o, "panic") THEN R(Panics({"C03", "C10", "C11"}), "ok")
  ELSE R(SimplifyReqs(t, o.thr, o.post), "ok")

DoClipPath(o) ==
  IF Has(o, "panic") THEN R(Panics({"C07"}), "ok") ELSE R(ClipPathReqs(o.m, o.path, o.out), "ok")

DoRing(o) ==
  IF Has(o, "panic") THEN R(Panics({"C12", "C18"}), "ok") ELSE R(RingReqs(o.r, o.out), "ok")

DoShow(o) ==
  IF Has(o, "panic") THEN R(Panics({"C19"}), "ok") ELSE R(Req("C19", "C19.text", o.out = Shown(o.what, o.v)), "ok")

\* Relations between the results of earlier operations a and b.
BothGood(o) == Good(o.a) /\ Good(o.b)
SameMap(t, u) ==  \* both describe the same regions
  /\ Len(t.regions) = Len(u.regions)
  /\ \A g \in 1..Len(t.regions) : t.regions[g].d = u.regions[g].d /\ Dir(Outline(t, g)) = Dir(Outline(u, g))
DoSame(o) ==      \* two normalizations of the same map
  IF ~BothGood(o) THEN Skip ELSE
  LET t == Left(Op(o.a).src)  u == Left(Op(o.b).src) IN
  IF ~(Normalize_domain(t) /\ Normalize_domain(u)) THEN OOD
  ELSE IF ~(NoPinch(Outlines(t)) /\ NoPinch(Outlines(u))) THEN OOD
  ELSE IF ~SameMap(t, u) THEN OOD
  ELSE IF ~(Walkable(Op(o.a).post) /\ Walkable(Op(o.b).post)) THEN Skip
  ELSE R(Req("C06", "C06.same", SameTopology(Op(o.a).post, Op(o.b).post)), "ok")
DoSameGeometry(o) == \* clipping again (b, from a) changed nothing
  IF ~BothGood(o) THEN Skip ELSE
  IF ~(Walkable(Op(o.a).post) /\ Walkable(Op(o.b).post)) THEN Skip
  ELSE IF ~Clip_domain(Op(o.a).post, ClipExpect(Op(o.b).m, Op(o.a).post)) THEN OOD
  ELSE R(Req("C09", "C09.again", SameGeometry(Op(o.a).post, Op(o.b).post)), "ok")
DoRect(o) ==
  IF ~BothGood(o) THEN Skip ELSE
  LET t == Left(o.a)  u == Op(o.b).post IN
  IF ~(Walkable(t) /\ Walkable(u)) THEN Skip
  ELSE R(Req("C09", "C09.rect_within", Rect_within(o.ms, u))
         \cup Req("C09", "C09.rect_regions", Rect_regions(o.ms, t, u))
         \cup Req("C09", "C09.rect_vertices", Rect_regions(o.ms, t, u) => Rect_vertices(o.ms, t, u)), "ok")
DoMonotone(o) ==
  IF ~BothGood(o) THEN Skip
  ELSE R(Req("C10", "C10.monotone", Simplify_monotone(Op(o.a).post, Op(o.b).post)), "ok")

\* The same was asked twice.
Asked(o, x) == x.op = o.op /\ CASE o.op = "build" -> x.in = o.in
                              [] o.op = "normalize" -> TRUE
                              [] o.op = "clip" -> x.m = o.m
                              [] o.op = "simplify" -> x.thr = o.thr
DoTwice(o) ==
  LET x == Op(o.a)  y == Op(o.b) IN
  IF Has(x, "skip") \/ Has(y, "skip") \/ ~Asked(x, y) THEN Skip
  ELSE IF x.op # "build" /\ ~(Good(x.src) /\ Good(y.src)) THEN Skip
  ELSE IF x.op # "build" /\ Op(x.src).post # Op(y.src).post THEN Skip
  ELSE R(Req("C21", "C21.same", IF Has(x, "panic") THEN Has(y, "panic") ELSE Has(y, "post") /\ x.post = y.post), "ok")

Outcome(o) ==
  IF Props = {"C21"} /\ o.op # "twice" THEN R({}, "ok") ELSE
  CASE o.op = "build"     -> DoBuild(o)
    [] o.op = "normalize" -> DoNormalize(o)
    [] o.op = "clip"      -> DoClip(o)
    [] o.op = "simplify"  -> DoSimplify(o)
    [] o.op = "clippath"  -> DoClipPath(o)
    [] o.op = "ring"      -> DoRing(o)
    [] o.op = "show"      -> DoShow(o)
    [] o.op = "same"      -> DoSame(o)
    [] o.op = "again"     -> DoSameGeometry(o)
    [] o.op = "rect"      -> DoRect(o)
    [] o.op = "mono"      -> DoMonotone(o)
    [] o.op = "twice"     -> DoTwice(o)

Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {} /\ note = "ok"
Next ==
  /\ l < Len(Cases[c].ops) /\ bad = {}
  /\ l' = l + 1 /\ c' = c
  /\ LET r == Outcome(Op(l + 1))
     IN  /\ bad' = r.bad
         /\ note' = r.note
         /\ (r.note = "ok" \/ PrintT(<< "NOTE", r.note, Op(l + 1).op, Cases[c].fam >>))
Spec == Init /\ [][Next]_vars

\* A case's states are told apart by how far it is.
Progress == << c, l, bad >>
Accepted == bad = {}
Alias == [case |-> Cases[c].id, fam |-> Cases[c].fam, op |-> l, kind |-> IF l = 0 THEN "" ELSE Op(l).op, bad |-> bad]
=============================================================================
