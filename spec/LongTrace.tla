----------------------------- MODULE LongTrace ------------------------------
(* The paths chosen for very long texts. The search is a machine that reads one *)
(* character a step and keeps, for the last two positions, the least cost with  *)
(* which each right id is reached - relative to the best, so that totals of any *)
(* size are within reach. Words are one or two characters long: [t, l, r, c].   *)
(* The recorded path is a sequence of words (numbered), costed in step.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Inhibited == 32767
VARIABLES ci, verdict, i, d0, d1, mine
C == Cases[ci]
vars == <<ci, verdict, i, d0, d1, mine>>
Conn(r, l) == C.matrix[r + 1][l + 1]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* mine: the words of the path taken so far, where they end, the last right id and the relative cost
Init == /\ ci \in 1..Len(Cases) /\ verdict = "run" /\ i = 0
        /\ d0 = {} /\ d1 = {<<0, 0>>} /\ mine = [k |-> 0, at |-> 0, r |-> 0, c |-> 0]

EndsHere(w, j) == Len(w.t) <= j /\ \A x \in DOMAIN w.t : w.t[x] = C.text[j - Len(w.t) + x]
\* what reaches position i + 1
Reached ==
  LET all == UNION {LET w == C.words[n] IN
                    IF ~EndsHere(w, i + 1) THEN {}
                    ELSE {<<w.r, s[2] + Conn(s[1], w.l) + w.c>> : s \in {x \in (IF Len(w.t) = 1 THEN d1 ELSE d0) : Conn(x[1], w.l) # Inhibited}} : n \in DOMAIN C.words}
  IN {x \in all : \A y \in all : y[1] = x[1] => x[2] <= y[2]}
Taken ==
  IF mine.at > i THEN mine
  ELSE LET w == C.words[C.path[mine.k + 1]]
       IN [k |-> mine.k + 1, at |-> i + Len(w.t), r |-> w.r, c |-> mine.c + Conn(mine.r, w.l) + w.c]
Bad == IF mine.at > i THEN ""
       ELSE IF mine.k = Len(C.path) THEN "the path ends before the text"
       ELSE LET w == C.words[C.path[mine.k + 1]]
            IN IF i + Len(w.t) > Len(C.text) \/ ~EndsHere(w, i + Len(w.t)) THEN "a word of the path is not in the text"
               ELSE IF Conn(mine.r, w.l) = Inhibited THEN "an inhibited pair is adjacent"
               ELSE ""
Last ==
  LET ends == {s[2] + Conn(s[1], 0) : s \in {x \in d1 : Conn(x[1], 0) # Inhibited}}
  IN IF ends = {} THEN "a path although none is permitted"
     ELSE IF mine.k # Len(C.path) \/ mine.at # Len(C.text) THEN "the path does not lead to the end"
     ELSE IF Conn(mine.r, 0) = Inhibited THEN "an inhibited pair is adjacent"
     ELSE IF mine.c + Conn(mine.r, 0) # MinOf(ends) THEN "the path is not a cheapest one"
     ELSE "ok"
End(v) == verdict' = v /\ PrintT(<<"VERDICT", ci, v>>) /\ UNCHANGED <<ci, i, d0, d1, mine>>
Step == LET n == Reached
            m == Taken
            base == IF n = {} THEN 0 ELSE MinOf({x[2] : x \in n})
        IN /\ i' = i + 1
           /\ d0' = {<<x[1], x[2] - base>> : x \in d1}
           /\ d1' = {<<x[1], x[2] - base>> : x \in n}
           /\ mine' = [m EXCEPT !.c = @ - base]
           /\ UNCHANGED <<ci, verdict>>
Next == /\ verdict = "run"
        /\ IF C.err # "" THEN End("failed with " \o C.err)
           ELSE IF i = Len(C.text) THEN End(Last)
           ELSE IF Bad # "" THEN End(Bad)
           ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
