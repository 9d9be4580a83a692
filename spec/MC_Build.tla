------------------------------ MODULE MC_Build ------------------------------
(* Building, one ring at a time, from paths that many rings could share: a  *)
(* few paths between two points and a closed path.  The machine adds rings  *)
(* over them, in either direction and from either point, to its regions;    *)
(* the table of stored paths it keeps is checked against Build throughout.  *)
EXTENDS System, Wide, Json

CONSTANTS Paths,     \* sequence of paths from one point to another
          Loops,     \* sequence of closed paths
          MaxRings, MaxRegions, Roles     \* Roles: subset of {"o", "i"}
VARIABLES in,        \* the regions so far
          table,     \* canonical paths stored so far
          n, done
vars == << in, table, n, done >>

\* rings: there by one path, back by another, from either end, as edges; or a loop
Both(a, b) == << Paths[a], Reverse(Paths[b]) >>
Back(a, b) == << Reverse(Paths[a]), Paths[b] >>
Idx == 1..Len(Paths)
Shapes == { Both(a, b) : a \in Idx, b \in Idx } \cup { Back(a, b) : a \in Idx, b \in Idx }
          \cup { << Loops[k] >> : k \in 1..Len(Loops) } \cup { << Reverse(Loops[k]) >> : k \in 1..Len(Loops) }
AsE(e) == [t |-> "e", e |-> e]

Init == in = << >> /\ table = {} /\ n = 0 /\ done = FALSE
AddRegion ==
  /\ ~done /\ Len(in) < MaxRegions
  /\ in' = Append(in, [d |-> Len(in) + 1, o |-> << >>, i |-> << >>]) /\ UNCHANGED << table, n, done >>
AddRing ==
  /\ ~done /\ in # << >> /\ n < MaxRings
  /\ \E s \in Shapes, role \in Roles :
       /\ in' = [in EXCEPT ![Len(in)] = IF role = "o" THEN [@ EXCEPT !.o = Append(@, AsE(s))] ELSE [@ EXCEPT !.i = Append(@, AsE(s))]]
       /\ table' = table \cup (IF NSgn(SumArea(s)) = 0 THEN {} ELSE { Canon(s[k]) : k \in 1..Len(s) })
  /\ n' = n + 1 /\ UNCHANGED done
Finish ==
  /\ ~done /\ in # << >> /\ done' = TRUE /\ UNCHANGED << in, table, n >>
  /\ Build_domain(in) => PrintT("CASE" \o ToJson([ops |-> << [op |-> "build", in |-> in] >>]))
Next == AddRegion \/ AddRing \/ Finish
Spec == Init /\ [][Next]_vars

\* paths of regions that are left out are not stored
AllLeft == \A g \in 1..Len(in) : KeptRings(in[g].o) # << >> \/ KeptRings(in[g].i) = << >>
Table == AllLeft => table = { Canon(p) : p \in ToSet(KeptPaths(in)) }
Meets == (done /\ Build_domain(in)) => BuildReqs(in, BuildF(in)) = {} /\ LinksOK(BuildF(in))
Stored == (done /\ Build_domain(in)) => { e.p : e \in ToSet(BuildF(in).edges) } \subseteq table

PathsN == << << <<2, 5>>, <<8, 5>> >>, << <<2, 5>>, <<5, 1>>, <<8, 5>> >>, << <<2, 5>>, <<4, 9>>, <<6, 8>>, <<8, 5>> >> >>
PathsX == << << <<<<0,0,0>>,<<21,4748,3647>>>>, <<<<42,9496,7295>>,<<21,4748,3647>>>> >>, << <<<<0,0,0>>,<<21,4748,3647>>>>, <<<<14,3165,5765>>,<<0,0,0>>>>, <<<<42,9496,7295>>,<<21,4748,3647>>>> >>, << <<<<0,0,0>>,<<21,4748,3647>>>>, <<<<0,0,7>>,<<42,9496,7295>>>>, <<<<42,9496,7290>>,<<42,9496,7295>>>>, <<<<42,9496,7295>>,<<21,4748,3647>>>> >> >>
LoopsX == << << <<<<0,0,0>>,<<21,4748,3647>>>>, <<<<0,0,0>>,<<42,9496,7295>>>>, <<<<42,9496,7295>>,<<0,0,0>>>>, <<<<0,0,0>>,<<21,4748,3647>>>> >> >>
LoopsN == << << <<2, 5>>, <<0, 4>>, <<1, 2>>, <<2, 5>> >> >>
=============================================================================
