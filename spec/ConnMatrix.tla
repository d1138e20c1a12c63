----------------------------- MODULE ConnMatrix -----------------------------
(* Connection costs. A source is a header with two sizes and lines with a pair *)
(* and its cost; the table is the function the source denotes, changed by      *)
(* edits of single pairs.                                                      *)
EXTENDS DictSource
INHIBITED == 32767
Blank(c) == c \in {9, 10, 13, 32}
Fields(s) == LET cut == SelectSeq(Indices(s), LAMBDA i : ~Blank(s[i]) /\ (i = 1 \/ Blank(s[i - 1])))
                 stop(i) == CHOOSE j \in i..Len(s) : (j = Len(s) \/ Blank(s[j + 1])) /\ \A k \in i..j : ~Blank(s[k])
             IN [k \in DOMAIN cut |-> SubSeq(s, cut[k], stop(cut[k]))]
Value16(n) == IF n.neg THEN -ToInt(n.d, 0) ELSE ToInt(n.d, 0)
IntOf(s) == Value16(Num(s))
Triple(s) == LET f == Fields(s) IN IF Len(f) < 3 \/ f[1][1] = 35 THEN <<>> ELSE <<IntOf(f[1]), IntOf(f[2]), IntOf(f[3])>>
Triples(lines) == SelectSeq([i \in DOMAIN lines |-> Triple(lines[i])], LAMBDA t : t # <<>>)
(* the cost of the last line of a pair, 0 without one *)
CostOf(ts, l, r) == LET at == {i \in DOMAIN ts : ts[i][1] = l /\ ts[i][2] = r}
                    IN IF at = {} THEN 0 ELSE ts[CHOOSE i \in at : \A j \in at : j <= i][3]
Table(ts, L, R) == [l \in 1..L |-> [r \in 1..R |-> CostOf(ts, l - 1, r - 1)]]
Edited(tab, l, r, c) == [tab EXCEPT ![l + 1][r + 1] = c]
(* edits of several pairs, each <<l, r, cost>> *)
RECURSIVE EditAll(_, _)
EditAll(tab, es) == IF es = <<>> THEN tab ELSE EditAll(Edited(tab, es[1][1], es[1][2], es[1][3]), Tail(es))
=============================================================================
