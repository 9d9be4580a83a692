-------------------------------- MODULE Show --------------------------------
(* Printed forms. *)
EXTENDS Geo

Join(strs, sep) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN strs[1] ELSE acc \o sep \o strs[i], "", strs)
Each(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

ShowPoint(p) == "(" \o CStr(p[1]) \o "," \o CStr(p[2]) \o ")"
ShowEdge(p)  == "Edge(" \o Join(Each(ShowPoint, p), ",") \o ")"
ShowRing(r)  == "[" \o (IF r.t = "p" THEN Join(Each(ShowPoint, r.p), ",") ELSE Join(Each(ShowEdge, r.e), ",")) \o "]"
ShowRings(rs) == "[" \o Join(Each(ShowRing, rs), ", ") \o "]"
ShowRegion(r) == "Region([data], outer:" \o ShowRings(r.o) \o ", inner:" \o ShowRings(r.i) \o ")"

Shown(what, v) ==
  CASE what = "point"  -> ShowPoint(v)
    [] what = "edge"   -> ShowEdge(v)
    [] what = "ring"   -> ShowRing(v)
    [] what = "region" -> ShowRegion(v)
=============================================================================
