---------------------------- MODULE JoinNumeric ----------------------------
(* Joining of numeral tokens.  A token is [s, dig, num]: s its normalized form *)
(* in the symbols of Numeral, dig whether all its characters are of a numeric  *)
(* category, num whether its part of speech is the numeral one.                *)
EXTENDS NumeralMachine
\* Recognize s as a whole
Run(s) == LET f == FeedAll(Start, s) IN IF f.p.ok THEN Done(f.p) ELSE f.p

IsComma(t) == t.s = <<Comma>>
IsPoint(t) == t.s = <<Point>>
Joins(t, com, per) == t.dig \/ (com /\ IsComma(t)) \/ (per /\ IsPoint(t))

RECURSIVE Spell(_, _, _)
\* the symbols of tokens a..b
Spell(ts, a, b) == IF a > b THEN <<>> ELSE ts[a].s \o Spell(ts, a + 1, b)

\* The joiner as a machine: i the next token, begin the first of the run (0: none), p the recognizer,
\* com / per whether commas / points count as part of a numeral, out the merged ranges <<first, last>>.
JStart == [i |-> 1, begin |-> 0, p |-> Start, com |-> TRUE, per |-> TRUE, out |-> <<>>, end |-> FALSE]

Take(ts, b, e, out) == IF ts[b].num THEN Append(out, <<b, e>>) ELSE out
\* leave the run and go on behind token i
Leave(j, ts) ==
  LET t == IF j.i <= Len(ts) THEN ts[j.i] ELSE [s |-> <<>>, dig |-> FALSE, num |-> FALSE]
  IN [j EXCEPT !.begin = 0, !.i = @ + 1, !.end = j.i > Len(ts),
               !.com = @ \/ ~IsComma(t), !.per = @ \/ ~IsPoint(t)]
JStep(ts, j) ==
  IF j.i <= Len(ts) /\ Joins(ts[j.i], j.com, j.per) THEN
    LET b == IF j.begin = 0 THEN j.i ELSE j.begin
        p == IF j.begin = 0 THEN Start ELSE j.p
        q == FeedAll(p, ts[j.i].s).p
    IN  IF q.ok THEN [j EXCEPT !.begin = b, !.p = q, !.i = @ + 1]
        ELSE IF q.err = "COMMA" /\ j.com THEN [j EXCEPT !.begin = 0, !.i = b, !.com = FALSE]
        ELSE IF q.err = "POINT" /\ j.per THEN [j EXCEPT !.begin = 0, !.i = b, !.per = FALSE]
        ELSE [j EXCEPT !.begin = 0, !.i = @ + 1]     \* no numeral: the run up to here stays as it is
  ELSE IF j.begin = 0 THEN Leave(j, ts)
  ELSE
    LET d == Done(j.p)
        l == ts[j.i - 1]
    IN  IF d.ok THEN Leave([j EXCEPT !.out = Take(ts, j.begin, j.i - 1, @)], ts)
        ELSE IF (d.err = "COMMA" /\ IsComma(l)) \/ (d.err = "POINT" /\ IsPoint(l))
        THEN \* the run ends with a comma or point of the sentence
             IF Run(Spell(ts, j.begin, j.i - 2)).ok
             THEN Leave([j EXCEPT !.out = Take(ts, j.begin, j.i - 2, @)], ts)
             ELSE Leave(j, ts)
        ELSE IF d.err = "COMMA" /\ j.com THEN [j EXCEPT !.begin = 0, !.i = j.begin, !.com = FALSE]
        ELSE Leave(j, ts)

RECURSIVE JRun(_, _)
JRun(ts, j) == IF j.end THEN j.out ELSE JRun(ts, JStep(ts, j))
Merged(ts) == JRun(ts, JStart)
=============================================================================
