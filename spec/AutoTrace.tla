----------------------------- MODULE AutoTrace ------------------------------
(* Recorded loads: per entry of each dictionary k the cost written in the       *)
(* source, the word costs of its surface's segmentation with the dictionaries   *)
(* before k, and the cost after loading; digests of the files before and after. *)
EXTENDS AutoCost, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Wrong(e) == e.path # <<>> /\ \E k \in DOMAIN e.got : e.got[k] # CostAfterLoading(e.dic, e.c, e.path)
Judge == IF C.exc # "" THEN "failed: " \o C.exc
         ELSE IF C.before # C.after THEN "a dictionary file was changed"
         ELSE IF \E k \in DOMAIN C.entries : C.entries[k].path = <<>> /\ C.entries[k].c = Auto /\ C.entries[k].dic > 0 THEN "no segmentation recorded"
         ELSE LET bad == {k \in DOMAIN C.entries : Wrong(C.entries[k])}
              IN IF bad = {} THEN "ok" ELSE LET e == C.entries[CHOOSE k \in bad : TRUE]
                   IN "cost of entry " \o ToString(e.idx) \o " of dictionary " \o ToString(e.dic) \o ": " \o ToString(e.got) \o " instead of " \o ToString(CostAfterLoading(e.dic, e.c, e.path))
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
