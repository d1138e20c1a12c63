----------------------------- MODULE LookupModel ----------------------------
(* All small dictionaries and texts: walking a trie finds exactly the matches. *)
EXTENDS Lookup, TLC
CONSTANTS MaxText, MaxWords
Words == UNION {[1..n -> 1..2] : n \in 1..3}
VARIABLES dic, text
Init == /\ dic \in UNION {[1..n -> {[h |-> w, l |-> x] : w \in Words, x \in {-1, 0}}] : n \in 0..MaxWords}
        /\ text \in UNION {[1..n -> 1..2] : n \in 0..MaxText}
Next == UNCHANGED <<dic, text>>
Spec == Init /\ [][Next]_<<dic, text>>
WalkFinds == \A o \in 0..Len(text) : Walk(dic, text, o, 1) = Matches(dic, text, o)
EndsGrow == \A o \in 0..Len(text) : \A m \in Matches(dic, text, o) : m[2] > o /\ m[2] <= Len(text)
=============================================================================
