---------------------------- MODULE CharCategory ----------------------------
(* Character categories: a code point has the categories of every definition   *)
(* line whose range contains it, and DEFAULT if there is no such line.         *)
EXTENDS Integers, Sequences

\* a line is [lo, hi, cats]; cats is a sequence of category names
Lines(defs, cp) == {n \in DOMAIN defs : defs[n].lo <= cp /\ cp <= defs[n].hi}
CatsOf(line)    == {line.cats[j] : j \in DOMAIN line.cats}
Categories(defs, cp) ==
  LET ls == Lines(defs, cp)
  IN  IF ls = {} THEN {"DEFAULT"} ELSE UNION {CatsOf(defs[n]) : n \in ls}
=============================================================================
