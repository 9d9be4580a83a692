------------------------------- MODULE MC_Own -------------------------------
(* Every history of up to Depth operations on a few small maps: topologies  *)
(* are built, abandoned, normalized, clipped, simplified and dropped, and   *)
(* at the end all are dropped, first to last or last to first.  Checked     *)
(* here: values are owned once and none is lost.  Every history is printed  *)
(* and then carried out by the code.                                        *)
EXTENDS System, Own, Wide, Json
CONSTANTS Depth, Ins, Masks, Thrs

VARIABLES s, topo, h, done
vars == << s, topo, h, done >>
\* topo[k] : the topology whose values are s.held[k]

Sq(x, y, n) == [t |-> "p", p |-> << <<x, y>>, <<x + n, y>>, <<x + n, y + n>>, <<x, y + n>>, <<x, y>> >>]
Flat == [t |-> "p", p |-> << <<1, 1>>, <<5, 1>>, <<1, 1>> >>]
\* two neighbours; a region with a hole, a flat one and one in the hole
InsN == << << [d |-> 7, o |-> << Sq(0, 0, 4) >>, i |-> << >>], [d |-> 8, o |-> << Sq(4, 0, 4) >>, i |-> << >>] >>,
           << [d |-> 3, o |-> << Sq(0, 0, 12) >>, i |-> << Sq(4, 4, 4) >>], [d |-> 4, o |-> << Flat >>, i |-> << >>],
              [d |-> 5, o |-> << Sq(4, 4, 4), Sq(20, 0, 4) >>, i |-> << >>] >> >>
MasksN == { [k |-> 1, v |-> 2], [k |-> 0, v |-> 14], [k |-> 3, v |-> 0] }
ThrsN == { 100 }

N == Len(h)
Ds(t) == [g \in 1..Len(t.regions) |-> t.regions[g].d]
Alive == { k \in 1..N : s.held[k] # << >> }
Do(op, n, t) == s' = n /\ topo' = Append(topo, t) /\ h' = Append(h, op) /\ UNCHANGED done

Init == s = Start /\ topo = << >> /\ h = << >> /\ done = FALSE
Step ==
  \/ \E i \in 1..Len(Ins) :
       \/ LET t == BuildF(Ins[i]) IN Do([op |-> "build", in |-> Ins[i]], Made(s, Ds(t)), t)
       \/ Do([op |-> "abandon", in |-> Ins[i]], Abandoned(s, Len(Ins[i])), EmptyTopology)
  \/ \E k \in Alive :
       \/ /\ Normalize_domain(topo[k])
          /\ LET t == NormalizeF(topo[k]) IN Do([op |-> "normalize", src |-> k], Made(s, Ds(t)), t)
       \/ \E m \in Masks : /\ Clip_domain(topo[k], ClipExpect(m, topo[k]))
                           /\ LET t == ClipF(m, topo[k]) IN Do([op |-> "clip", src |-> k, m |-> m], Made(s, Ds(t)), t)
       \/ \E thr \in Thrs : /\ Simplify_domain(topo[k])
                            /\ LET pick(n) == CHOOSE p \in SimplifiedPaths(topo[k].edges[n].p, thr) : TRUE
                                   t == [topo[k] EXCEPT !.edges = [n \in 1..Len(topo[k].edges) |-> [p |-> pick(n), r |-> topo[k].edges[n].r]]]
                               IN  Do([op |-> "simplify", src |-> k, thr |-> thr], Moved(s, k), t)
       \/ Do([op |-> "drop", src |-> k], Dropped(s, k), EmptyTopology)
Drop(k) == [op |-> "drop", src |-> k]
Finish(ends) ==   \* everything is dropped
  /\ s' = [held |-> [k \in 1..N |-> << >>], live |-> s.live \ Values(s.held), made |-> s.made]
  /\ PrintT("CASE" \o ToJson([ops |-> h \o [k \in 1..N |-> Drop(ends[k])] \o << [op |-> "end"] >>]))
  /\ done' = TRUE /\ UNCHANGED << topo, h >>
Next == ~done /\ (IF N < Depth THEN Step ELSE Finish([k \in 1..N |-> k]) \/ Finish([k \in 1..N |-> N + 1 - k]))
Spec == Init /\ [][Next]_vars

Owned == NoLeak(s) /\ OwnedOnce(s)
Gone == done => s.live = {}
Fresh == \A v \in s.live : v.id \in 1..s.made
=============================================================================
