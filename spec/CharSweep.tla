----------------------------- MODULE CharSweep -----------------------------
(* The sweep that compiles the definition lines to disjoint ranges             *)
(* (CharacterCategory._compile), as a state machine; on termination the        *)
(* compiled ranges answer exactly like the lines.                              *)
EXTENDS CharCategory, FiniteSets, TLC
CONSTANTS Max, Cats, MaxLines
VARIABLES defs, right, left, active, pivot, out, pc
vars == <<defs, right, left, active, pivot, out, pc>>

Ranges == {[lo |-> l, hi |-> h, cats |-> c] : l \in 0..Max, h \in 0..Max,
             c \in {<<x>> : x \in Cats} \cup {<<x, y>> : x \in Cats, y \in Cats}}
Valid == {r \in Ranges : r.lo <= r.hi /\ (Len(r.cats) = 2 => r.cats[1] # r.cats[2])}
Less(a, b) == a.lo < b.lo \/ (a.lo = b.lo /\ a.hi <= b.hi)

Init == /\ \E n \in 0..MaxLines : defs \in [1..n -> Valid]
        /\ \A i \in 1..(Len(defs) - 1) : Less(defs[i], defs[i + 1])     \* already sorted
        /\ right = defs /\ left = <<>> /\ active = <<>> /\ pivot = 0 /\ out = <<>> /\ pc = "sweep"

\* the open range that ends first; ranges that end together leave in any order
Leaving(i) == \A j \in DOMAIN left : left[i].hi <= left[j].hi
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE RemoveAll(_, _)
RemoveAll(s, cs) == IF cs = <<>> THEN s
                    ELSE LET p == CHOOSE p \in DOMAIN s : s[p] = cs[1] /\ \A q \in 1..(p - 1) : s[q] # cs[1]
                         IN  RemoveAll(Without(s, p), Tail(cs))

Open == /\ pc = "sweep" /\ left = <<>> /\ right # <<>>
        /\ left' = <<Head(right)>> /\ right' = Tail(right)
        /\ pivot' = Head(right).lo /\ active' = active \o Head(right).cats
        /\ UNCHANGED <<defs, out, pc>>
Emit(lo, hi) == out' = Append(out, [lo |-> lo, hi |-> hi, cats |-> active])
EndsFirst(r) == IF right = <<>> THEN TRUE ELSE r.hi + 1 <= Head(right).lo
Leave == /\ pc = "sweep" /\ left # <<>>
         /\ \E i \in DOMAIN left : /\ Leaving(i)
              /\ EndsFirst(left[i])
              /\ Emit(pivot, left[i].hi) /\ pivot' = left[i].hi + 1
              /\ active' = RemoveAll(active, left[i].cats)
              /\ left' = Without(left, i)
         /\ UNCHANGED <<defs, right, pc>>
Enter == /\ pc = "sweep" /\ left # <<>> /\ right # <<>>
         /\ \E i \in DOMAIN left : Leaving(i) /\ left[i].hi + 1 > Head(right).lo
         /\ Emit(pivot, Head(right).lo - 1) /\ pivot' = Head(right).lo
         /\ active' = active \o Head(right).cats
         /\ left' = Append(left, Head(right)) /\ right' = Tail(right)
         /\ UNCHANGED <<defs, pc>>
Done == /\ pc = "sweep" /\ left = <<>> /\ right = <<>> /\ pc' = "done"
        /\ UNCHANGED <<defs, right, left, active, pivot, out>>
Next == Open \/ Leave \/ Enter \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Disjoint == \A i, j \in DOMAIN out : i # j => \A x \in 0..Max :
               ~(out[i].lo <= x /\ x <= out[i].hi /\ out[j].lo <= x /\ x <= out[j].hi)
Correct  == pc = "done" => \A x \in 0..(Max + 1) : Categories(out, x) = Categories(defs, x)
NothingOpen == pc = "done" => active = <<>>
Terminates == <>(pc = "done")
=============================================================================
