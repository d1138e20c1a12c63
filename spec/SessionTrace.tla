---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions: every event is possible, nothing fails that may not, and *)
(* whatever is answered, then or later, is what a fresh process answers.       *)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict

Step(c, acc, ev) ==
  IF acc.bad # "" THEN acc
  ELSE IF ev.op = "bad" THEN [acc EXCEPT !.bad = "an operation failed"]
  ELSE IF ~Enabled(acc.s, ev) THEN [acc EXCEPT !.bad = "not a session"]
  ELSE IF ev.op \in {"tok", "read"} /\ ev.got # -1 /\ ev.got # Expected(acc.s, ev, c.base)
       THEN [acc EXCEPT !.bad = IF ev.op = "tok" THEN "a call answers differently from a fresh process"
                                ELSE "an earlier result has changed"]
  ELSE [acc EXCEPT !.s = Apply(acc.s, ev)]

Judge(c) == LET r == FoldLeft(LAMBDA acc, ev : Step(c, acc, ev), [s |-> Empty, bad |-> ""], c.events)
            IN IF r.bad = "" THEN "ok" ELSE r.bad

Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge(Cases[ci]) /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
