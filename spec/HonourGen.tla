----------------------------- MODULE HonourGen -----------------------------
(* Settings that differ from a plain one in up to N places.                    *)
EXTENDS Honour, TLC, Json
CONSTANT N
VARIABLES c, n
vars == <<c, n>>
Absent == [there |-> FALSE, is |-> <<>>]
List(s) == [there |-> TRUE, is |-> s]
Plain == [json |-> "good", sys |-> "good", char |-> "good", users |-> <<>>, inp |-> List(<<"default">>),
          oov |-> List(<<Simple("", "known")>>), path |-> List(<<>>)]
Init == c = Plain /\ n = 0 /\ PrintT(<<"GEN", ToJson(c)>>)
Lists(s, S) == {Absent, List(<<>>)} \cup {List(<<x>>) : x \in S} \cup {List(Append(s.is, x)) : x \in S} \cup {List(<<x>> \o s.is) : x \in S}
Change ==
  \/ \E x \in {"broken", "nofile"} : c' = [c EXCEPT !.json = x]
  \/ \E x \in {"nofile", "user"} : c' = [c EXCEPT !.sys = x]
  \/ \E x \in {"nokey", "nofile"} : c' = [c EXCEPT !.char = x]
  \/ \E x \in {"good", "nofile", "system"} : c' = [c EXCEPT !.users = Append(@, x)]
  \/ \E l \in Lists(c.inp, Inputs) : c' = [c EXCEPT !.inp = l]
  \/ \E l \in Lists(c.oov, Providers) : c' = [c EXCEPT !.oov = l]
  \/ \E l \in Lists(c.path, Rewriters) : c' = [c EXCEPT !.path = l]
Next == n < N /\ Change /\ n' = n + 1 /\ c' # c /\ PrintT(<<"GEN", ToJson(c')>>)
Spec == Init /\ [][Next]_vars
View == c
PlainIsHonoured == (c = Plain) => Honoured(c)
\* a fault is never repaired by more of the same list
FaultStays == \A k \in 1..Len(c.oov.is) : ~ProviderOk(c.oov.is[k]) => ~Honoured(c)
=============================================================================
