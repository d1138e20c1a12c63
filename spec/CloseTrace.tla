----------------------------- MODULE CloseTrace -----------------------------
(* Recorded sessions that close dictionaries: closing succeeds, a file stays   *)
(* mapped exactly as long as an open dictionary uses it, and the dictionaries  *)
(* that stay open answer as if nothing had happened.                           *)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt, FiniteSets
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]

\* the files of the dictionaries still open
Used(s, files) == UNION {ToSet(files[s.dicts[d].cfg]) : d \in {k \in 1..Len(s.dicts) : s.dicts[k].open}}

Step(acc, ev) ==
  IF acc.bad # "" THEN acc
  ELSE IF ev.exc # "" THEN [acc EXCEPT !.bad = ev.op \o " failed: " \o ev.exc]
  ELSE IF ~Enabled(acc.s, ev) THEN [acc EXCEPT !.bad = "not a session"]
  ELSE IF ev.op \in {"tok", "read"} /\ ev.got # Expected(acc.s, ev, C.base)
       THEN [acc EXCEPT !.bad = "an open dictionary answers differently"]
  ELSE LET s2 == Apply(acc.s, ev)
           u == Used(s2, C.files)
           h == ToSet(ev.held)
       IN IF h \ u # {} THEN [acc EXCEPT !.bad = "a file stays mapped after " \o ev.op]
          ELSE [acc EXCEPT !.s = s2]

Judge == LET r == FoldLeft(LAMBDA acc, ev : Step(acc, ev), [s |-> Empty, bad |-> ""], C.events)
         IN IF r.bad # "" THEN r.bad
            ELSE IF Used(r.s, C.files) # {} THEN "not a complete session" ELSE "ok"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
