------------------------------ MODULE ConnTrace -----------------------------
(* Recorded: source lines, the table read from the built dictionary, then      *)
(* edits with the table after each.                                            *)
EXTENDS ConnMatrix, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Wide(tab) == TLCEval(tab)
RECURSIVE Steps(_, _, _)
Steps(o, tab, k) ==
  IF k > Len(o.ops) THEN "ok"
  ELSE LET t2 == Wide(EditAll(tab, o.ops[k].pairs))
       IN IF o.ops[k].table # t2 THEN "after edit " \o ToString(k) \o " (" \o o.ops[k].how \o ")" ELSE Steps(o, t2, k + 1)
(* a matrix too large to be read in full: some of its pairs, and an edit counts like a further line *)
Probed(ts, ps) == \A k \in DOMAIN ps : ps[k][3] = CostOf(ts, ps[k][1], ps[k][2])
RECURSIVE Probes(_, _, _)
Probes(o, ts, k) ==
  IF k > Len(o.ops) THEN "ok"
  ELSE LET t2 == TLCEval(ts \o o.ops[k].pairs)
       IN IF ~Probed(t2, o.ops[k].probes) THEN "after edit " \o ToString(k) \o " (" \o o.ops[k].how \o ")" ELSE Probes(o, t2, k + 1)
JudgeBig(o) ==
  LET ts == TLCEval(Triples(o.lines))
  IN IF o.exc # "" THEN "failed: " \o o.exc
     ELSE IF ~Probed(ts, o.probes) THEN "costs read differ from the source"
     ELSE Probes(o, ts, 1)
Judge1(o) ==
  IF o.big THEN JudgeBig(o) ELSE
  LET tab == Wide(Table(Wide(Triples(o.lines)), o.L, o.R))
  IN IF o.exc # "" THEN "failed: " \o o.exc
     ELSE IF o.table # tab THEN "costs read differ from the source"
     ELSE Steps(o, tab, 1)
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
