-------------------------------- MODULE MC_VW -------------------------------
(* Visvalingam-Whyatt elimination of every short path over a small grid,    *)
(* with every way of breaking ties, down to the ends.  Every path is        *)
(* printed, as (part of) a ring, with several thresholds, and simplified by *)
(* the code.                                                                *)
EXTENDS System, Wide, Json

CONSTANTS At,        \* coordinates
          Lens,      \* numbers of points, without a closed path's end
          Kinds,     \* subset of {"open", "closed"}
          Thrs,      \* sequence of thresholds, increasing
          Far        \* a point off the grid

VARIABLES path, st, log
vars == << path, st, log >>

Grid == { << At[a], At[b] >> : a \in 1..Len(At), b \in 1..Len(At) }
Paths(n, k) == IF k = "open" THEN [1..n -> Grid] ELSE { Append(p, p[1]) : p \in [1..n -> Grid] }
Big == [a |-> << >>]
Init ==
  /\ path \in UNION { Paths(n, k) : n \in Lens, k \in Kinds }
  /\ st = Big /\ log = << >>

\* an open path is closed by way of a far point, as a second edge
Ring(p) == IF First(p) = End(p) THEN << p >> ELSE << p, << End(p), Far, First(p) >> >>
Ops(p) ==
  << [op |-> "build", in |-> << [d |-> 1, o |-> << [t |-> "e", e |-> Ring(p)] >>, i |-> << >>] >>] >>
  \o [k \in 1..Len(Thrs) |-> [op |-> "simplify", src |-> 1, thr |-> Thrs[k]]]
  \o [k \in 1..(Len(Thrs) - 1) |-> [op |-> "mono", a |-> k + 1, b |-> k + 2]]
Start ==
  /\ st = Big
  /\ st' = VWInit(path) /\ UNCHANGED << path, log >>
  /\ PrintT("CASE" \o ToJson([ops |-> Ops(path)]))
\* the weight of the point removed, when it was removed
Drop ==
  /\ st # Big /\ Len(st.a) > 2
  /\ \E j \in 2..(Len(st.a) - 1) :
       /\ st.w[j] = VWMin(st)
       /\ st' = VWRemove(path, st, j)
       /\ log' = Append(log, st'.run)
  /\ UNCHANGED path
Next == Start \/ Drop
Spec == Init /\ [][Next]_vars

Going == st # Big
\* The ends stay, order stays, importance never decreases, each step removes one.
Ends == Going => st.a[1] = 1 /\ End(st.a) = Len(path) /\ \A k \in 2..Len(st.a) : st.a[k - 1] < st.a[k]
Rising == \A k \in 2..Len(log) : ~NLt(log[k], log[k - 1])
Steps == Going => Len(log) + Len(st.a) = Len(path)
Left(i) == \E k \in 1..Len(st.a) : st.a[k] = i
Tops == Going => \A i \in st.top : ~Left(i)
\* weights are up to date
Weights == Going => \A k \in 2..(Len(st.a) - 1) : st.w[k] = TriArea(path[st.a[k-1]], path[st.a[k]], path[st.a[k+1]])
\* what a threshold keeps: the results are those of the machine stopped in time,
\* never fewer than four points of a closed path, never more for a larger threshold
Results(k) == SimplifiedPaths(path, Thrs[k])
Sizes(k) == { Len(p) : p \in Results(k) }
Laws == (st # Big /\ log = << >>) =>
  /\ \A k \in 1..Len(Thrs) :
       /\ Results(k) # {}
       /\ \A p \in Results(k) : First(p) = First(path) /\ End(p) = End(path) /\ IsSubsequence(p, path)
       /\ (First(path) = End(path) /\ Len(path) >= 4) => \A n \in Sizes(k) : n >= 4
  /\ \A k \in 2..Len(Thrs) : \A n \in Sizes(k) : \E q \in Sizes(k - 1) : n <= q
\* (how many points are kept can depend on how ties are broken)

AtN == << 0, 1, 3 >>
FarN == << 40, 41 >>
ThrN == << 0, 1, 2, 3, 6, 1000 >>
AtX == << <<0,0,0>>, <<42,9496,7295>> >>
AtY == << <<0,0,0>>, <<21,4748,3648>>, <<42,9496,7295>> >>
FarX == << <<1,2,3>>, <<42,9000,7>> >>
Th(x) == W_NOfInt(x)
\* 0, 1, (2^32-1)^2 / 2 rounded down, (2^32-1)^2, 2^64 - 1
ThrX == << W_Zero, W_NOfInt(1), W_Quo(W_Mul(W_CNum(AtX[2]), W_CNum(AtX[2])), W_NOfInt(2)), W_Mul(W_CNum(AtX[2]), W_CNum(AtX[2])),
           << 1615, 955, 737, 6744, 1844, 0, 0 >> >>
=============================================================================
