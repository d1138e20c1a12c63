----------------------------- MODULE HonourTrace -----------------------------
(* Openings with all kinds of settings and readings of definition files.       *)
EXTENDS Honour, Definitions, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Allowed(r) ==
  IF C.kind = "settings" THEN Honoured(r.c)
  ELSE IF C.kind = "rewrite" THEN RewriteOk(r.lines)
  ELSE LET d == Categories(r.mchar, ToSet(C.names), {})
       IN d # Bad /\ Unknowns(r.unk, d, ToSet(C.poss))
Clause(r) ==
  IF r.got = "crash" THEN "neither opened nor refused"
  ELSE IF Allowed(r) THEN IF r.got = "opened" THEN "ok" ELSE "refused (" \o r.got \o ") though nothing is wrong"
  ELSE IF r.got = "opened" THEN "accepted though it cannot be honoured" ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Clause(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN C.kind \o ": " \o Clause(C.runs[k]) \o " (" \o (IF C.kind = "settings" THEN ToString(C.runs[k].c) ELSE C.runs[k].text) \o ")"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
