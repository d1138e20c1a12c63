------------------------------ MODULE CharGen ------------------------------
(* All definition files of a small scope, in every order of their lines.       *)
EXTENDS CharCategory, TLC, Json
CONSTANTS Max, Cats, N, Pairs
VARIABLE defs
CatSeqs == {<<x>> : x \in Cats} \cup (IF Pairs THEN {<<x, y>> : x \in Cats, y \in Cats} ELSE {})
Valid == {r \in [lo : 0..Max, hi : 0..Max, cats : CatSeqs] : r.lo <= r.hi}
Init == defs = <<>>
Next == /\ Len(defs) < N
        /\ \E r \in Valid : defs' = Append(defs, r)
        /\ Len(defs') = N => PrintT(<<"GEN", ToJson([defs |-> defs'])>>)
Spec == Init /\ [][Next]_defs
=============================================================================
