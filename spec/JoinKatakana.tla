---------------------------- MODULE JoinKatakana ----------------------------
(* Joining of katakana tokens.  A token is [kata, call, bow]: all katakana;    *)
(* calling for joining (out-of-vocabulary or short); may start a joined word.  *)
EXTENDS Integers, Sequences
\* ---- what is to be merged
Run(ts, a, z) == /\ 1 <= a /\ a <= z /\ z <= Len(ts) /\ \A k \in a..z : ts[k].kata
                 /\ (a = 1 \/ ~ts[a - 1].kata) /\ (z = Len(ts) \/ ~ts[z + 1].kata)
Called(ts, a, z) == \E k \in a..z : ts[k].call
First(ts, a, z) == IF \E k \in a..z : ts[k].bow THEN CHOOSE k \in a..z : ts[k].bow /\ \A m \in a..(k - 1) : ~ts[m].bow ELSE z + 1
Merges(ts) == {<<First(ts, r[1], r[2]), r[2]>> :
                 r \in {q \in (1..Len(ts)) \X (1..Len(ts)) : Run(ts, q[1], q[2]) /\ Called(ts, q[1], q[2]) /\ First(ts, q[1], q[2]) < q[2]}}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<m>> \o InOrder(S \ {m})

\* ---- the joiner as a machine over a shrinking path (merged tokens are marked)
M == [kata |-> TRUE, call |-> TRUE, bow |-> TRUE]
RECURSIVE Left(_, _), Right(_, _), Bow(_, _, _)
Left(ts, k) == IF k > 1 /\ ts[k - 1].kata THEN Left(ts, k - 1) ELSE k
Right(ts, k) == IF k < Len(ts) /\ ts[k + 1].kata THEN Right(ts, k + 1) ELSE k
Bow(ts, b, e) == IF b <= e /\ ~ts[b].bow THEN Bow(ts, b + 1, e) ELSE b
\* the path keeps for each token the range of original tokens it covers
KStep(path, i) ==
  LET ts == [k \in DOMAIN path |-> path[k].t] IN
  IF ~(ts[i].call /\ ts[i].kata) THEN [path |-> path, i |-> i + 1]
  ELSE LET e == Right(ts, i)
           b == Bow(ts, Left(ts, i), e)
       IN  IF e > b THEN [path |-> SubSeq(path, 1, b - 1) \o <<[t |-> M, a |-> path[b].a, z |-> path[e].z]>> \o SubSeq(path, e + 1, Len(path)),
                          i |-> b + 2]
           ELSE [path |-> path, i |-> i + 1]
=============================================================================
