------------------------------ MODULE Simplify ------------------------------
(* Visvalingam-Whyatt: a small machine that removes one point at a time.    *)
(* Its state is                                                             *)
(*   a    the indices of the points that are left, in order                 *)
(*   w    for each of them, twice the area of its triangle (ends: unused)   *)
(*   run  the importance of the point removed last (it never decreases)     *)
(*   top  the removed points of that importance                             *)
(* The machine may remove any point of the smallest area, so a path can     *)
(* have several results.                                                    *)
EXTENDS Topology

VWInit(path) ==
  LET n == Len(path)
  IN  [a |-> [i \in 1..n |-> i],
       w |-> [i \in 1..n |-> IF i = 1 \/ i = n THEN NZero ELSE TriArea(path[i-1], path[i], path[i+1])],
       run |-> NZero, top |-> {}]

VWMin(st) ==   \* of st.w, when there are inner points
  FoldLeft(LAMBDA m, x : IF NLt(x, m) THEN x ELSE m, st.w[2], SubSeq(st.w, 2, Len(st.w) - 1))

\* Removing the j-th remaining point.
VWRemove(path, st, j) ==
  LET n == Len(st.a)
      a2 == SubSeq(st.a, 1, j - 1) \o SubSeq(st.a, j + 1, n)
      w2 == SubSeq(st.w, 1, j - 1) \o SubSeq(st.w, j + 1, n)
      new(i) == IF i = 1 \/ i = n - 1 THEN NZero ELSE TriArea(path[a2[i-1]], path[a2[i]], path[a2[i+1]])
      up == NLt(st.run, st.w[j])
  IN  TLCEval([a |-> a2, w |-> [w2 EXCEPT ![j - 1] = new(j - 1), ![j] = new(j)],
       run |-> IF up THEN st.w[j] ELSE st.run,
       top |-> IF up THEN { st.a[j] } ELSE st.top \cup { st.a[j] }])

VWDone(st, thr) == Len(st.a) = 2 \/ NLt(thr, VWMin(st))
VWNext(path, st, thr) ==
  IF VWDone(st, thr) THEN {}
  ELSE LET m == VWMin(st) IN { VWRemove(path, st, j) : j \in { j \in 2..(Len(st.a) - 1) : st.w[j] = m } }

\* The index sequences a finished state allows.
VWResults(path, st) ==
  IF First(path) # End(path) \/ Len(st.a) >= 4 THEN { st.a }
  ELSE LET n == Len(path)
           three(i, j) == IF i < j THEN << 1, i, j, n >> ELSE << 1, j, i, n >>
       IN  IF Len(st.a) = 3 THEN { three(st.a[2], s) : s \in st.top }
           ELSE { three(x[1], x[2]) : x \in { y \in st.top \X st.top : y[1] < y[2] } }

RECURSIVE VWExplore(_, _, _)
VWExplore(path, thr, frontier) ==
  LET done == { st \in frontier : VWDone(st, thr) }
      rest == UNION { VWNext(path, st, thr) : st \in frontier \ done }
      now  == UNION { VWResults(path, st) : st \in done }
  IN  IF rest = {} THEN now ELSE now \cup VWExplore(path, thr, rest)

SimplifiedIndices(path, thr) ==
  IF First(path) = End(path) /\ Len(path) < 4 THEN { [i \in 1..Len(path) |-> i] }
  ELSE VWExplore(path, thr, { VWInit(path) })
SimplifiedPaths(path, thr) == { [i \in 1..Len(s) |-> path[s[i]]] : s \in SimplifiedIndices(path, thr) }

\* Following one order of removals is enough unless areas coincide.  The same
\* machine for long paths: one order, in one pass.
VWLeast(st) ==  \* [m |-> the smallest area, j |-> where, n |-> how often]
  FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN acc ELSE LET x == st.w[i + 1] IN
                   IF NLt(x, acc.m) THEN [m |-> x, j |-> i + 1, n |-> 1] ELSE IF x = acc.m THEN [acc EXCEPT !.n = acc.n + 1] ELSE acc,
                 [m |-> st.w[2], j |-> 2, n |-> 1], SubSeq(st.w, 2, Len(st.w) - 1))
VWStep(path, thr, s) ==
  IF s.end THEN s
  ELSE IF Len(s.st.a) = 2 THEN [s EXCEPT !.end = TRUE]
  ELSE LET x == TLCEval(VWLeast(s.st))
       IN  IF NLt(thr, x.m) THEN [s EXCEPT !.end = TRUE]
           ELSE IF x.n > 1 THEN [s EXCEPT !.end = TRUE, !.tie = TRUE]
           ELSE [s EXCEPT !.st = VWRemove(path, s.st, x.j)]
VWRun(path, thr) ==
  FoldLeft(LAMBDA s, i : TLCEval(VWStep(path, thr, s)), [end |-> FALSE, tie |-> FALSE, st |-> VWInit(path)], path)
MaxTied == 11    \* longer paths are only decided if no two areas coincide
Pick(path, ss) == { [i \in 1..Len(s) |-> path[s[i]]] : s \in ss }
VWAccepts(path, thr, out) ==
  IF Len(path) <= MaxTied THEN out \in SimplifiedPaths(path, thr)
  ELSE LET r == VWRun(path, thr) IN r.tie \/ out \in Pick(path, VWResults(path, r.st))

--------------------------------------------------------------------------
(* Requirements *)

RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(s, i, path, j) ==
  IF i > Len(s) THEN TRUE
  ELSE IF j > Len(path) THEN FALSE
  ELSE IF s[i] = path[j] THEN SubseqFrom(s, i + 1, path, j + 1) ELSE SubseqFrom(s, i, path, j + 1)
IsSubsequence(s, path) == SubseqFrom(s, 1, path, 1)

Simplify_domain(t) == LinksOK(t) /\ \A n \in 1..Len(t.edges) : Len(t.edges[n].p) >= 2

\* Everything but the points is as it was.
Simplify_structure(t, u) ==
  /\ u.regions = t.regions
  /\ Len(u.edges) = Len(t.edges)
  /\ \A n \in 1..Len(t.edges) : u.edges[n].r = t.edges[n].r
Simplify_ends(t, u) ==
  Len(u.edges) = Len(t.edges) =>
  \A n \in 1..Len(t.edges) :
    LET p == t.edges[n].p  q == u.edges[n].p
    IN  Len(q) >= 2 /\ First(q) = First(p) /\ End(q) = End(p) /\ IsSubsequence(q, p)
Simplify_closed(t, u) ==
  Len(u.edges) = Len(t.edges) =>
  \A n \in 1..Len(t.edges) :
    LET p == t.edges[n].p IN First(p) = End(p) /\ Len(p) >= 4 => Len(u.edges[n].p) >= 4
Simplify_vw(t, thr, u) ==
  Len(u.edges) = Len(t.edges) =>
  \A n \in 1..Len(t.edges) :
    VWAccepts(t.edges[n].p, thr, u.edges[n].p)
\* u by a smaller threshold than v: v has no more points anywhere
Simplify_monotone(u, v) ==
  Len(u.edges) = Len(v.edges) /\ \A n \in 1..Len(u.edges) : Len(v.edges[n].p) <= Len(u.edges[n].p)

SimplifyFs(path, thr) == SimplifiedPaths(path, thr)
=============================================================================
