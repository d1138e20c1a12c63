----------------------------- MODULE ThreadTrace -----------------------------
(* Threads that each use a tokenizer of their own are independent sessions: in *)
(* whatever order their turns come, each gets what it would get alone.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]

\* a schedule: turns of the threads, each cut or run to its end, all of them ending
WellFormed(r) == \A k \in 1..Len(r.turns) : r.turns[k][1] \in 1..Len(C.want)

Bad(r) == {t \in 1..Len(C.want) : r.got[t] # C.want[t]}
Judge ==
  LET bad == {k \in DOMAIN C.runs : ~WellFormed(C.runs[k]) \/ Bad(C.runs[k]) # {}}
  IN IF bad = {} THEN "ok"
     ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              t == CHOOSE x \in Bad(C.runs[k]) : TRUE
          IN IF C.kind = "failed" THEN C.outs[1] ELSE "a thread gets " \o C.outs[C.runs[k].got[t] + 1] \o " where it would get " \o C.outs[C.want[t] + 1] \o " alone: schedule " \o ToString(C.runs[k].turns)
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
