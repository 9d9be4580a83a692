------------------------------- MODULE MC_Map -------------------------------
(* Small maps and everything that can be done to them.  A map colours the   *)
(* cells of a W x H grid with 0 (nothing) and regions 1..K; a behaviour      *)
(* builds it, in one of several ways of writing it down, and then applies   *)
(* Depth operations.  Checked here: the operations meet their own           *)
(* requirements and compose (Compose).  Every complete behaviour is printed *)
(* and then carried out by the code.                                        *)
EXTENDS System, Wide, Json

CONSTANTS W, H, K,
          At,        \* coordinates of grid lines: a sequence (overridden for wide runs)
          Slant,     \* 0: squares; 1: shift every other vertex
          Writings,  \* subset of {"cells", "outlines", "reversed", "rows"}
          Depth,
          Does,      \* subset of {"normalize", "clip", "simplify", "equiv"}
          MaskKinds, \* subset of 0..3
          MaskAt,    \* sequence of coordinates
          Thrs       \* set of numbers

VARIABLES lab, writing, t, h, bad
vars == << lab, writing, t, h, bad >>

Cells == (0..(W - 1)) \X (0..(H - 1))
Vertex(i, j) == IF Slant = 1 THEN << At[i + 1 + (IF j % 2 = 1 THEN 1 ELSE 0)], At[j + 1 + (IF i % 2 = 1 THEN 1 ELSE 0)] >>
                ELSE << At[i + 1], At[j + 1] >>
CellRing(c) == LET i == c[1]  j == c[2]
               IN  << Vertex(i, j), Vertex(i + 1, j), Vertex(i + 1, j + 1), Vertex(i, j + 1), Vertex(i, j) >>
\* cells in reading order
CellSeq == [k \in 1..(W * H) |-> << (k - 1) % W, (k - 1) \div W >>]
Of(l, g) == SelectSeq(CellSeq, LAMBDA c : l[c] = g)
AsPoints(p) == [t |-> "p", p |-> p]
ByCells(l) == TLCEval([g \in 1..K |-> [d |-> g, o |-> [k \in 1..Len(Of(l, g)) |-> AsPoints(CellRing(Of(l, g)[k]))], i |-> << >>]])
\* the regions' whole outlines, cut where the neighbour changes
ByOutlines(l) ==
  LET b == BuildF(ByCells(l))  outs == Outlines(b)
  IN  [g \in 1..Len(b.regions) |-> NormalizedRegion(outs[g], b.regions[g].d)]
TurnRing(r) == IF r.t = "p" THEN [r EXCEPT !.p = Reverse(@)]
               ELSE [r EXCEPT !.e = [j \in 1..Len(r.e) |-> Reverse(r.e[Len(r.e) + 1 - j])]]
Turn(rs) == [k \in 1..Len(rs) |-> IF k % 2 = 1 THEN TurnRing(rs[k]) ELSE rs[k]]
Reversed(in) == [g \in 1..Len(in) |-> [d |-> in[g].d, o |-> Reverse(Turn(in[g].o)), i |-> Reverse(Turn(in[g].i))]]
\* no outline passes a point twice
Simple(l) == LET outs == Outlines(BuildF(ByCells(l))) IN NoPinch(outs)
Written(l, w) == CASE w = "cells" -> ByCells(l)
                   [] w = "reversed" -> Reversed(ByCells(l))
                   [] w = "outlines" -> ByOutlines(l)
                   [] w = "outlines_reversed" -> Reversed(ByOutlines(l))
\* maps that differ in the regions' numbers only are one map; one region at least
Ordered(l) ==
  LET s == [k \in 1..(W * H) |-> l[CellSeq[k]]]
  IN  /\ \A k \in 1..(W * H) : s[k] > 1 => \E q \in 1..(k - 1) : s[q] = s[k] - 1
      /\ \E k \in 1..(W * H) : s[k] > 0

Masks == { [k |-> k, v |-> MaskAt[x]] : k \in MaskKinds, x \in 1..Len(MaskAt) }
\* the same once more
Again(o, n) == IF o.op = "build" THEN o ELSE [o EXCEPT !.src = @ + n]
Doubled(ops) == LET n == Len(ops) IN
  ops \o [k \in 1..n |-> Again(ops[k], n)] \o [k \in 1..n |-> [op |-> "twice", a |-> k, b |-> k + n]]
Case(ops) == PrintT("CASE" \o ToJson([ops |-> IF "twice" \in Does THEN Doubled(ops) ELSE ops]))
N == Len(h)

Init ==
  /\ lab \in { l \in [Cells -> 0..K] : Ordered(l) }
  /\ writing \in Writings
  /\ t = EmptyTopology /\ h = << >> /\ bad = {}
NextBuild ==
  /\ N = 0
  /\ (writing \in {"outlines", "outlines_reversed"} => Simple(lab))
  /\ LET in == TLCEval(Written(lab, writing))  u == BuildF(in)
     IN  t' = u /\ h' = << [op |-> "build", in |-> in] >> /\ bad' = BuildReqs(in, u)
         /\ (Depth > 0 \/ Case(h'))
  /\ UNCHANGED << lab, writing >>

Do(op, u, reqs) ==
  /\ t' = u /\ h' = Append(h, op) /\ bad' = reqs
  /\ UNCHANGED << lab, writing >>
  /\ (N < Depth \/ Case(h'))
CanNormalize == Normalize_domain(t) /\ NoPinch(Outlines(t))
NextNormalize ==
  /\ "normalize" \in Does /\ CanNormalize
  /\ LET u == NormalizeF(t) IN Do([op |-> "normalize", src |-> N], u, NormalizeReqs(t, u, TRUE))
NextClip ==
  /\ "clip" \in Does
  /\ \E m \in Masks :
       LET exp == ClipExpect(m, t) IN
       /\ Clip_domain(t, exp)
       /\ LET u == ClipF(m, t) IN Do([op |-> "clip", src |-> N, m |-> m], u, ClipReqs(m, t, exp, u, TRUE))
NextSimplify ==
  /\ "simplify" \in Does
  /\ \E thr \in Thrs :
       LET pick(n) == CHOOSE p \in SimplifiedPaths(t.edges[n].p, thr) : TRUE
           u == [t EXCEPT !.edges = [n \in 1..Len(t.edges) |-> [p |-> pick(n), r |-> t.edges[n].r]]]
       IN  /\ Simplify_domain(t)
           /\ Do([op |-> "simplify", src |-> N, thr |-> thr], u, SimplifyReqs(t, thr, u))
\* The same map written in all ways, each normalized, and once more.
NextEquiv ==
  /\ "equiv" \in Does /\ N = 1 /\ CanNormalize /\ Simple(lab)
  /\ LET in(w) == [op |-> "build", in |-> Written(lab, w)]
         nz(k) == [op |-> "normalize", src |-> k]
         same(a, b) == [op |-> "same", a |-> a, b |-> b]
     IN  /\ Case(<< in("cells"), nz(1), in("outlines"), nz(3), in("reversed"), nz(5), in("outlines_reversed"), nz(7), nz(2),
                    same(2, 4), same(2, 6), same(2, 8), same(2, 9) >>)
         /\ h' = Append(h, << >>)
         /\ bad' = (IF \A w \in {"cells", "outlines", "reversed", "outlines_reversed"} :
                          SameTopology(NormalizeF(BuildF(Written(lab, w))), NormalizeF(t))
                       /\ SameTopology(NormalizeF(NormalizeF(t)), NormalizeF(t)) THEN {} ELSE { "equivalent" })
         /\ UNCHANGED << lab, writing, t >>
Next == NextBuild \/ (N > 0 /\ N <= Depth /\ bad = {} /\ (NextNormalize \/ NextClip \/ NextSimplify \/ NextEquiv))
Spec == Init /\ [][Next]_vars

Meets == bad = {}
Sound == LinksOK(t) /\ RingsClosed(t)
\* Clipping twice is clipping once; what all masks keep does not grow.
Compose ==
  N > 1 /\ h[N] # << >> /\ h[N].op = "clip" =>
    LET m == h[N].m IN Clip_domain(t, ClipExpect(m, t)) => SameGeometry(t, ClipF(m, t))
ThrN == {0, 30}
\* the whole range of coordinates
AtX == << <<0,0,0>>, <<0,0,1>>, <<21,4748,3647>>, <<21,4748,3648>>, <<42,9496,7294>>, <<42,9496,7295>> >>
MaskX == << <<0,0,0>>, <<0,0,1>>, <<21,4748,3647>>, <<30,0,0>>, <<42,9496,7295>> >>
ThrX == { W_Zero, W_Mul(W_CNum(AtX[3]), W_CNum(AtX[4])) }
AtN == << 0, 3, 7, 12, 16, 21, 25 >>
MaskN == << 0, 3, 5, 7, 10, 12 >>
Alias == [lab |-> lab, writing |-> writing, h |-> h, bad |-> bad]
=============================================================================
