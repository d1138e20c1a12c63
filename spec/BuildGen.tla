------------------------------ MODULE BuildGen ------------------------------
(* Calls that differ from the plainest one in up to N respects.                *)
EXTENDS BuildCommand, TLC, Json
CONSTANT N
VARIABLES c, n
vars == <<c, n>>
Init == /\ \E cmd \in {"build", "ubuild"} :
             c = [cmd |-> cmd, sources |-> 1, missing |-> 0, matrix |-> "good", system |-> "given", fault |-> "none", desc |-> "none", out |-> "default", old |-> "no"]
        /\ n = 0 /\ PrintT(<<"GEN", ToJson(c)>>)
Change ==
  \/ \E k \in 2..3 : k >= c.missing /\ c' = [c EXCEPT !.sources = k]
  \/ \E k \in 1..c.sources : c' = [c EXCEPT !.missing = k]
  \/ \E x \in {"lost", "bad"} : c.cmd = "build" /\ c' = [c EXCEPT !.matrix = x]
  \/ \E x \in {"lost", "core", "none"} : c.cmd = "ubuild" /\ c' = [c EXCEPT !.system = x]
  \/ \E x \in {"line", "unit", "form"} : c' = [c EXCEPT !.fault = x]
  \/ \E x \in Descriptions : c' = [c EXCEPT !.desc = x]
  \/ \E x \in {"relative", "absolute"} : c' = [c EXCEPT !.out = x]
  \/ \E x \in {"longer", "shorter"} : c' = [c EXCEPT !.old = x]
Next == n < N /\ Change /\ c' # c /\ n' = n + 1 /\ PrintT(<<"GEN", ToJson(c')>>)
Spec == Init /\ [][Next]_vars
View == c
BuiltOrFailed == LET e == Expected(c) IN (e.file = {"built"}) = (e.status = {"0"})
LostIsStatus1 == (c.missing # 0 /\ c.system # "none") => Expected(c).status = {"1"}
=============================================================================
