---------------------------- MODULE LatticeModel ----------------------------
(* The incremental search (each node, on insertion, takes the cheapest node    *)
(* ending where it begins) against the enumeration of all paths.               *)
EXTENDS Lattice, TLC
CONSTANTS N, Costs, Links, MaxPer
VARIABLES todo, lat, matrix
\* lat: sequence of [b, e, l, r, c, tot, prev]; prev 0: begin of text, -1: not connected
Spans == {s \in (0..(N - 1)) \X (1..N) : s[1] < s[2]}
NodeAt(s) == [b : {s[1]}, e : {s[2]}, l : {0, 1}, r : {0, 1}, c : Costs]
Init == matrix \in [1..2 -> [1..2 -> Links]] /\ todo = Spans /\ lat = <<>>
Prevs(x) == {k \in DOMAIN lat : lat[k].e = x.b /\ lat[k].prev >= 0 /\ Conn(matrix, lat[k].r, x.l) # Inhibited}
Costs2(x) == {lat[k].tot + Conn(matrix, lat[k].r, x.l) : k \in Prevs(x)}
Insert(x) ==
  LET bos == x.b = 0 /\ Conn(matrix, 0, x.l) # Inhibited
      y == [b |-> x.b, e |-> x.e, l |-> x.l, r |-> x.r, c |-> x.c]
  IN IF bos THEN [tot |-> Conn(matrix, 0, x.l) + x.c, prev |-> 0] @@ y
     ELSE IF Prevs(x) = {} THEN [tot |-> 0, prev |-> -1] @@ y
     ELSE LET m == MinOf(Costs2(x))
          IN [tot |-> m + x.c, prev |-> CHOOSE k \in Prevs(x) : lat[k].tot + Conn(matrix, lat[k].r, x.l) = m] @@ y
\* at each span, in order of begin: no word, one, or (MaxPer = 2) two
Next == /\ todo # {}
        /\ LET s == CHOOSE y \in todo : \A z \in todo : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2])
           IN /\ todo' = todo \ {s}
              /\ \/ lat' = lat
                 \/ \E x \in NodeAt(s) : lat' = Append(lat, Insert(x))
                 \/ MaxPer = 2 /\ \E x, y \in NodeAt(s) : lat' = lat \o <<Insert(x), Insert(y)>>
        /\ UNCHANGED matrix
Spec == Init /\ [][Next]_<<todo, lat, matrix>>
\* all permitted paths, as sequences of node numbers
RECURSIVE PathsFrom(_, _)
PathsFrom(p, rid) ==
  (IF p = N /\ Conn(matrix, rid, 0) # Inhibited THEN {<<>>} ELSE {}) \cup
  UNION {{<<k>> \o q : q \in PathsFrom(lat[k].e, lat[k].r)} : k \in {m \in DOMAIN lat : lat[m].b = p /\ Conn(matrix, rid, lat[m].l) # Inhibited}}
PathsOf == {[k \in DOMAIN q |-> lat[q[k]]] : q \in PathsFrom(0, 0)}
Ends == {k \in DOMAIN lat : lat[k].e = N /\ lat[k].prev >= 0 /\ Conn(matrix, lat[k].r, 0) # Inhibited}
Found == {lat[k].tot + Conn(matrix, lat[k].r, 0) : k \in Ends}
InvViterbi == todo = {} => IF PathsOf = {} THEN Found = {}
                           ELSE Found # {} /\ MinOf(Found) = MinOf({PathCost(q, matrix, 0, 1) : q \in PathsOf})
\* the functional form used to judge recorded lattices agrees
InvJudge == todo = {} => /\ (PathsOf # {}) = HasPath(lat, matrix, N)
                         /\ PathsOf # {} => LeastCost(lat, matrix, N) = MinOf(Found)
=============================================================================
