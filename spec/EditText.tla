------------------------------ MODULE EditText ------------------------------
(* The text under construction (UTF8InputTextBuilder) and its offset table.   *)
(* A text is a sequence of code points; map[i] (i = 1..Len(text)+1) is the     *)
(* original position of the i-th character, map[Len(text)+1] that of the end.  *)
EXTENDS Integers, Sequences

EditInit(orig) == [text |-> orig, map |-> [i \in 1..(Len(orig) + 1) |-> i - 1],
                   emptied |-> FALSE]

\* positions b, e count from 0, as in the code
Refused(st, b, e) == b < 0 \/ b > Len(st.text) \/ b >= e

Cut(st, e) == IF e > Len(st.text) THEN Len(st.text) ELSE e

\* The characters of the replacement: the first one belongs to the original
\* position of the range's begin, the others to that of its end.
ReplacementMap(st, b, e, r) ==
  [i \in 1..Len(r) |-> IF i = 1 THEN st.map[b + 1] ELSE st.map[e + 1]]

Edit(st, b, e0, r) ==
  LET e    == Cut(st, e0)
      tail == SubSeq(st.map, e + 1, Len(st.map))
      \* removed text is attributed to what follows it, unless that is the end
      tail2 == IF Len(r) = 0 /\ Len(tail) > 1
                 THEN [tail EXCEPT ![1] = st.map[b + 1]] ELSE tail
  IN  [text |-> SubSeq(st.text, 1, b) \o r \o SubSeq(st.text, e + 1, Len(st.text)),
       map  |-> SubSeq(st.map, 1, b) \o ReplacementMap(st, b, e, r) \o tail2,
       \* a text removed completely has no first character to start at 0
       emptied |-> st.emptied \/ (b = 0 /\ e = Len(st.text) /\ Len(r) = 0)]

Replace(st, b, e, r) == IF Refused(st, b, e) THEN st ELSE Edit(st, b, e, r)

---------------------------------------------------------------------------
\* What a user relies on
MapShape(st)        == Len(st.map) = Len(st.text) + 1
Monotone(st)        == \A i \in 1..(Len(st.map) - 1) : st.map[i] <= st.map[i + 1]
EndsAtEnd(st, n)    == st.map[Len(st.map)] = n
StartsAtStart(st)   == (Len(st.text) > 0 /\ ~st.emptied) => st.map[1] = 0
=============================================================================
