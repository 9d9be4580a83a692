----------------------------- MODULE Trace_Own -----------------------------
(* Checks recorded histories of making, using up and dropping topologies    *)
(* against Own.                                                             *)
EXTENDS System, Own, Wide, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, s, bad, note
vars == << c, l, s, bad, note >>
Op(k) == Cases[c].ops[k]
Has(o, f) == f \in DOMAIN o

\* the state after o
After(o) ==
  CASE Has(o, "skip")    -> Nothing(s)
    [] o.op = "build"     -> Made(s, o.ds)
    [] o.op = "abandon"   -> Abandoned(s, Len(o.in))
    [] o.op = "normalize" -> Made(s, o.ds)
    [] o.op = "clip"      -> Made(s, o.ds)
    [] o.op = "simplify"  -> Moved(s, o.src)
    [] o.op = "drop"      -> Dropped(s, o.src)
    [] o.op = "end"       -> Nothing(s)
\* what the new topology may say
Said_ok(o) ==
  CASE Has(o, "skip") \/ o.op \in {"abandon", "drop", "end"} -> TRUE
    [] o.op = "build"     -> Build_domain(o.in) => o.ds = [g \in 1..Len(KeptRegions(o.in)) |-> KeptRegions(o.in)[g].d]
    [] o.op = "normalize" -> IsSubSequence(o.ds, Said(s.held[o.src]))
    [] o.op = "clip"      -> IsSubSequence(o.ds, Said(s.held[o.src]))
    [] o.op = "simplify"  -> o.ds = Said(s.held[o.src])
Reqs(o, n) ==
  Req("C24", "C24.says", Said_ok(o))
  \cup Req("C24", "C24.live", o.live = Said(Says(n)))
  \cup Req("C24", "C24.stray", o.stray = 0)
  \cup Req("C24", "C24.intact", o.intact)
  \cup Req("C24", "C24.freed", Has(o, "left") => o.left = 0)
  \cup Req("C24", "C24.own", NoLeak(n) /\ OwnedOnce(n))

Init == c \in 1..Len(Cases) /\ l = 0 /\ s = Start /\ bad = {} /\ note = "ok"
Next ==
  /\ l < Len(Cases[c].ops) /\ bad = {} /\ note = "ok"
  /\ l' = l + 1 /\ c' = c
  /\ LET o == Op(l + 1) IN
     IF Has(o, "panic")   \* others judge whether it may; nothing is said of the rest
     THEN s' = s /\ bad' = {} /\ note' = "panic" /\ PrintT(<< "NOTE", "panic", o.op, Cases[c].fam >>)
     ELSE LET n == TLCEval(After(o)) IN s' = n /\ bad' = Reqs(o, n) /\ note' = "ok"
Spec == Init /\ [][Next]_vars
Progress == << c, l, bad >>
Accepted == bad = {}
Alias == [case |-> Cases[c].id, fam |-> Cases[c].fam, op |-> l, kind |-> IF l = 0 THEN "" ELSE Op(l).op, bad |-> bad]
=============================================================================
