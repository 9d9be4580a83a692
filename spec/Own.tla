-------------------------------- MODULE Own --------------------------------
(* Who owns what.  Every region of every topology has a value of its own,   *)
(* made when the topology is made and ended when it is dropped.  Building   *)
(* makes new values, normalizing and clipping copy those of their source,   *)
(* simplifying takes them over.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* A value is [id, d]: which one it is, and what it says.
\* State: held[k] = the values of topology k, << >> if there is none (any more);
\*        live = the values that have been made and have not ended;
\*        made = how many values there have been.
New(n, ds)  == [i \in 1..Len(ds) |-> [id |-> n + i, d |-> ds[i]]]
Said(vs)    == [i \in 1..Len(vs) |-> vs[i].d]
Values(held) == UNION { ToSet(held[k]) : k \in 1..Len(held) }

\* a topology that says ds is made
Made(s, ds) == [held |-> Append(s.held, New(s.made, ds)), live |-> s.live \cup ToSet(New(s.made, ds)), made |-> s.made + Len(ds)]
\* regions are given to a builder that is dropped: their values end with it
Abandoned(s, n) == [s EXCEPT !.held = Append(@, << >>), !.made = @ + n]
\* topology k becomes another one
Moved(s, k)  == [s EXCEPT !.held = Append([@ EXCEPT ![k] = << >>], s.held[k])]
Dropped(s, k) == [s EXCEPT !.held = Append([@ EXCEPT ![k] = << >>], << >>), !.live = @ \ ToSet(s.held[k])]
Nothing(s) == [s EXCEPT !.held = Append(@, << >>)]
Start == [held |-> << >>, live |-> {}, made |-> 0]

\* Nothing is alive that no topology owns ...
NoLeak(s)  == s.live = Values(s.held)
\* ... and nothing is owned twice.
OwnedOnce(s) == \A j, k \in 1..Len(s.held) : \A x \in 1..Len(s.held[j]), y \in 1..Len(s.held[k]) :
                  s.held[j][x].id = s.held[k][y].id => j = k /\ x = y

\* what the living values say, in order
Says(s) == SetToSortSeq(s.live, LAMBDA a, b : a.d < b.d \/ (a.d = b.d /\ a.id < b.id))
IsSubSequence(a, b) == \* a is b without some of its elements
  LET step(n, x) == IF n <= Len(a) /\ a[n] = x THEN n + 1 ELSE n
  IN  FoldLeft(step, 1, b) = Len(a) + 1
=============================================================================
