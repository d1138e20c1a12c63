------------------------------ MODULE ConnModel -----------------------------
(* The file layout: a table of L x R written line by line into an array with   *)
(* the first index running fastest and read back by the same rule is the table *)
(* its lines denote, in every shape; an edit of one cell changes one pair.     *)
EXTENDS ConnMatrix, TLC
CONSTANTS MaxSize, MaxLines
VARIABLES L, R, todo, mem, done
At(l, r) == l + L * r + 1
Cells == (0..(L - 1)) \X (0..(R - 1)) \X {-1, 5}
vars == <<L, R, todo, mem, done>>
Init == /\ L \in 1..MaxSize /\ R \in 1..MaxSize
        /\ todo = MaxLines /\ done = <<>>
        /\ mem = [i \in 1..(L * R) |-> 0]
Line == /\ todo > 0
        /\ \E c \in Cells : mem' = [mem EXCEPT ![At(c[1], c[2])] = c[3]] /\ done' = Append(done, c)
        /\ todo' = todo - 1 /\ UNCHANGED <<L, R>>
Spec == Init /\ [][Line]_vars
Denotes1 == Table(done, L, R) = [l \in 1..L |-> [r \in 1..R |-> mem[At(l - 1, r - 1)]]]
=============================================================================
