----------------------------- MODULE BuildTrace -----------------------------
(* Recorded calls of the build commands.                                       *)
EXTENDS BuildCommand, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Judge ==
  LET c == C.c
      e == Expected(c)
      status == IF C.status = 0 THEN "0" ELSE IF C.status = 1 THEN "1" ELSE "fail"
  IN IF C.status = -1000 THEN "did not run: " \o C.err
     ELSE IF status \notin e.status THEN "status " \o ToString(C.status) \o " (" \o C.err \o ")"
     ELSE IF C.file \notin e.file THEN "afterwards the output is: " \o C.file
     ELSE IF C.stray # <<>> THEN "writes other files: " \o ToString(C.stray)
     ELSE IF e.status # {"0"} THEN "ok"
     ELSE IF C.name # OutName(c) THEN "output under another name"
     ELSE IF C.version # Version(c) THEN "version: " \o C.version
     ELSE IF ~C.now THEN "creation time"
     ELSE IF C.gotdesc # C.desc THEN "description"
     ELSE IF ~C.body THEN "content differs from what the builder makes of the sources" ELSE "ok"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = (IF Judge = "ok" THEN "ok" ELSE Judge \o " " \o ToString(C.c)) /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
