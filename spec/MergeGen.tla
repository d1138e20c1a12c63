------------------------------ MODULE MergeGen ------------------------------
(* All histories of up to Steps merges on paths of up to MaxLen tokens.        *)
EXTENDS Merge, SequencesExt, Json
CONSTANTS MaxLen, Steps
VARIABLES path, n, ops
vars == <<path, n, ops>>
T(k) == [b |-> k - 1, e |-> k, surf |-> <<96 + k>>, norm |-> <<64 + k>>, read |-> <<48 + k>>, df |-> <<32 + k>>, pos |-> <<ToString(k)>>, oov |-> FALSE, dic |-> 0, idx |-> k, units |-> 0]
\* every range of two and more tokens but the whole path is a word of the lattice too
Cands(m) == LET ps == {p \in (0..m) \X (0..m) : p[2] - p[1] \in 2..(m - 1)}
                ord == SetToSeq(ps)
            IN [k \in 1..Cardinality(ps) |-> [c |-> 10, w |-> [T(1) EXCEPT !.b = ord[k][1], !.e = ord[k][2], !.surf = [i \in 1..(ord[k][2] - ord[k][1]) |-> 96 + ord[k][1] + i]]]]
Init == \E m \in 1..MaxLen : path = [k \in 1..m |-> T(k)] /\ n = m /\ ops = <<>>
Merges == [k : {"whole", "unknown"}, b : 0..MaxLen, e : 0..MaxLen, norm : {<<>>, <<90>>}, pos : {<<"x">>}]
Step == /\ Len(ops) < Steps
        /\ \E o \in Merges : /\ o.b <= n /\ o.e <= n + 1 /\ (o.k = "unknown" => o.norm = <<>>)
                             /\ path' \in After(path, o, Cands(n)) /\ ops' = Append(ops, o) /\ n' = n
                             /\ (Len(ops') = Steps => PrintT(<<"GEN", ToJson([n |-> n, ops |-> [i \in DOMAIN ops' |-> [k |-> ops'[i].k, b |-> ops'[i].b, e |-> ops'[i].e, norm |-> ops'[i].norm]]])>>))
Spec == Init /\ [][Step]_vars
Tile == Tiled(path, n)
Surfaces == Cat(path, "surf", 1, Len(path)) = [k \in 1..n |-> 96 + k]
=============================================================================
