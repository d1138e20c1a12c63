----------------------------- MODULE CharTrace -----------------------------
(* Recorded answers of the compiled character categories against the lines.    *)
EXTENDS CharCategory, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
SetOf(s) == {s[j] : j \in DOMAIN s}
BadProbes == {n \in DOMAIN C.probes : SetOf(C.probes[n].cats) # Categories(C.defs, C.probes[n].cp)}
Judge ==
  IF C.malformed THEN (IF C.exc = "" THEN "malformed definition accepted: " \o C.why ELSE "ok")
  ELSE IF C.exc # "" THEN "definition refused: " \o C.exc
  ELSE IF BadProbes # {} THEN "categories of " \o ToString(C.probes[CHOOSE n \in BadProbes : TRUE].cp)
  ELSE "ok"
Next == /\ verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
