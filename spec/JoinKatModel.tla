---------------------------- MODULE JoinKatModel ----------------------------
EXTENDS JoinKatakana, TLC
CONSTANTS MaxLen
Kinds == {x \in [kata : BOOLEAN, call : BOOLEAN, bow : BOOLEAN] : x.kata \/ x.bow}
VARIABLES ts, path, i
Init == /\ \E k \in 0..MaxLen : ts \in [1..k -> Kinds]
        /\ path = [k \in DOMAIN ts |-> [t |-> ts[k], a |-> k, z |-> k]]
        /\ i = 1
Next == /\ i <= Len(path) /\ UNCHANGED ts
        /\ LET s == KStep(path, i) IN path' = s.path /\ i' = s.i
Spec == Init /\ [][Next]_<<ts, path, i>>
Joined == {<<path[k].a, path[k].z>> : k \in {n \in DOMAIN path : path[n].a < path[n].z}}
InvSound == Joined \subseteq Merges(ts)
InvDone == i > Len(path) => Joined = Merges(ts)
InvTiles == /\ Len(path) <= Len(ts)
            /\ \A k \in 1..(Len(path) - 1) : path[k].z + 1 = path[k + 1].a
=============================================================================
