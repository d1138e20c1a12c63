----------------------------- MODULE ConfigTrace -----------------------------
(* Openings in one process, one after the other: each dictionary object is     *)
(* made from the files its own settings select, and stays so.                  *)
EXTENDS Config, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Clause(s) ==
  LET w == Resolve(s.c, ToSet(C.inst))
      Diff(g) == IF g.err # w.err THEN IF w.err THEN "opened although it must not" ELSE "failed to open"
                 ELSE IF g.sys # w.sys THEN "system dictionary of " \o g.sys \o " instead of " \o w.sys
                 ELSE IF g.users # w.users THEN "user dictionaries"
                 ELSE IF g.char # w.char THEN "character definition of " \o g.char \o " instead of " \o w.char
                 ELSE IF g.mchar # w.mchar THEN "category definition of " \o g.mchar \o " instead of " \o w.mchar
                 ELSE IF g.unk # w.unk THEN "unknown word definition of " \o g.unk \o " instead of " \o w.unk
                 ELSE "ok"
  IN IF Diff(s.got) # "ok" THEN Diff(s.got)
     ELSE IF Diff(s.again) # "ok" THEN "after other openings: " \o Diff(s.again) ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.steps : Clause(C.steps[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Clause(C.steps[k]) \o " (" \o ToString(C.steps[k].c) \o ")"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
