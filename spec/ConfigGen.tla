----------------------------- MODULE ConfigGen -----------------------------
(* Every combination of settings, arguments and installed packages.            *)
EXTENDS Config, TLC, Json
VARIABLES c, inst
vars == <<c, inst>>
U(n, p) == [n |-> n, p |-> p]
UserLists == {<<>>, <<U(1, "rel")>>, <<U(2, "abs"), U(1, "rel")>>, <<U(2, "rel"), U(1, "rel")>>, <<U(1, "abs"), U(2, "rel"), U(1, "rel")>>}
Init == /\ c \in [file : {"own"}, type : Types \cup {"none", "tiny"}, sys : {"absent", "empty", "rel", "abs"}, res : {"none", "given"},
                  users : UserLists, char : {"rel", "abs"}, mchar : {"rel", "abs"}, unk : {"rel", "abs"}]
                \cup [file : {"default"}, type : Types \cup {"none", "tiny"}, sys : {"empty"}, res : {"none"},
                      users : {<<>>}, char : {"rel"}, mchar : {"rel"}, unk : {"rel"}]
        /\ inst \in {{}, {"core"}, {"small"}, Types}
Next == PrintT(<<"GEN", ToJson([c |-> c, inst |-> inst])>>) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

r == Resolve(c, inst)
TypeWins    == (c.type \in inst) => r.sys = c.type
NoOtherType == (c.type # "none" /\ c.type \notin inst) => r.err
NamedWins   == (c.type = "none" /\ c.sys \in {"rel", "abs"}) => r.sys \in {"S", "R", "X"}
ErrorIsBare == r.err => r = Error
OrderKept   == (~r.err /\ c.file = "own") => [k \in 1..Len(r.users) |-> r.users[k][1]] = [k \in 1..Len(c.users) |-> c.users[k].n]
AbsoluteStays == (~r.err /\ c.file = "own") => \A k \in 1..Len(c.users) : c.users[k].p = "abs" => r.users[k][2] = "X"
=============================================================================
