------------------------------ MODULE EditTrace ------------------------------
(* Recorded edit sequences of the real builder, checked against EditText.      *)
EXTENDS EditText, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, st, verdict
vars == <<ci, k, st, verdict>>
C == Cases[ci]

Init == /\ ci \in 1..Len(Cases) /\ k = 0
        /\ st = EditInit(Cases[ci].orig) /\ verdict = "run"

Judge(s, new) ==
  IF s.exc # "" /\ ~Refused(st, s.b, s.e) THEN "edit-raised " \o s.exc
  ELSE IF s.exc = "" /\ Refused(st, s.b, s.e) THEN "edit-not-refused"
  ELSE IF s.text # new.text THEN "text"
  ELSE IF Len(s.map) # Len(new.map) THEN "map-length"
  ELSE IF s.map # new.map THEN "offset-map"
  ELSE IF ~Monotone([st EXCEPT !.map = s.map]) THEN "not-monotone"
  ELSE "ok"

ReplaceStep ==
  /\ k < Len(C.steps)
  /\ LET s == C.steps[k + 1]
         new == Replace(st, s.b, s.e, s.r)
         j == Judge(s, new)
     IN /\ st' = new
        /\ k' = k + 1
        /\ verdict' = IF j # "ok" THEN j ELSE IF k + 1 = Len(C.steps) THEN "ok" ELSE "run"
        /\ verdict' # "run" => PrintT(<<"VERDICT", ci, verdict'>>)
  /\ UNCHANGED ci
Broken == /\ C.exc # "" /\ verdict' = "driver saw " \o C.exc
          /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED <<ci, k, st>>
Next == verdict = "run" /\ (IF C.exc # "" THEN Broken ELSE ReplaceStep)
Spec == Init /\ [][Next]_vars
Inv == MapShape(st) /\ Monotone(st) /\ EndsAtEnd(st, Len(C.orig)) /\ StartsAtStart(st)
=============================================================================
