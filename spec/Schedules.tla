----------------------------- MODULE Schedules -----------------------------
(* The shapes of schedules with a bounded number of preemptions: which thread  *)
(* runs in each turn, where a turn that is not the thread's last ends in the   *)
(* middle of its work.  Where exactly is left to the driver.                   *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Threads, MaxPreempts
VARIABLES turns, done
vars == <<turns, done>>
Started == {turns[k].t : k \in 1..Len(turns)}
Open == Started \ done
\* threads are named in the order in which they start
Fresh == IF Started = Threads THEN {} ELSE {CHOOSE t \in Threads \ Started : \A u \in Threads \ Started : t <= u}
Init == turns = <<>> /\ done = {}
Prev == IF turns = <<>> THEN 0 ELSE turns[Len(turns)].t
Cuts == Cardinality({k \in 1..Len(turns) : ~turns[k].fin})
Next == \E t \in (Open \cup Fresh) \ {Prev}, fin \in BOOLEAN :
          /\ fin \/ Cuts < MaxPreempts
          /\ turns' = Append(turns, [t |-> t, fin |-> fin])
          /\ done' = IF fin THEN done \cup {t} ELSE done
          /\ (done' = Threads /\ Cuts > 0) => PrintT(<<"GEN", ToJson(turns')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
