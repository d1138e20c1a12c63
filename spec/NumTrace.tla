------------------------------ MODULE NumTrace ------------------------------
(* Recorded runs of the real recognizer: each string fed symbol by symbol.     *)
EXTENDS NumeralMachine, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Judge1(o) ==
  LET f == FeedAll(Start, o.s)
      d == Done(f.p)
      ok == f.p.ok /\ d.ok
  IN  IF o.exc # "" THEN "raised " \o o.exc
      ELSE IF WellFormed(o.s) # o.ok THEN IF o.ok THEN "accepted a string that is not a numeral" ELSE "refused a numeral"
      ELSE IF ok # o.ok THEN "recognizer and grammar disagree"
      ELSE IF o.ok /\ o.norm # Normalized(o.s) THEN "normalized form"
      ELSE IF ~o.ok /\ ~f.p.ok /\ o.err # f.p.err THEN "reason of the refusal: " \o o.err \o " instead of " \o f.p.err
      ELSE IF ~o.ok /\ f.p.ok /\ o.err # d.err THEN "reason of the refusal at the end: " \o o.err \o " instead of " \o d.err
      ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].s) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
