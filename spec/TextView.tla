------------------------------ MODULE TextView ------------------------------
(* The byte-indexed view of the rewritten text (UTF8InputText).                *)
(* text: code points; cats[i]: set of categories of the i-th character;        *)
(* map: original position of each character and of the end. Bytes count from 0.*)
EXTENDS Integers, Sequences, FiniteSets

U8(cp) == IF cp <= 127 THEN 1 ELSE IF cp <= 2047 THEN 2 ELSE IF cp <= 65535 THEN 3 ELSE 4

RECURSIVE StartsFrom(_, _, _)
StartsFrom(text, i, b) == IF i > Len(text) THEN <<b>> ELSE <<b>> \o StartsFrom(text, i + 1, b + U8(text[i]))
Starts(text) == StartsFrom(text, 1, 0)        \* first byte of each character, then the byte length

\* character (1-based) that byte b belongs to; Len(text)+1 for the end
\* (the last i with starts[i] <= b, halving lo..hi)
RECURSIVE CharAtIn(_, _, _, _)
CharAtIn(starts, b, lo, hi) == IF lo = hi THEN lo
                               ELSE LET m == (lo + hi + 1) \div 2
                                    IN  IF starts[m] <= b THEN CharAtIn(starts, b, m, hi) ELSE CharAtIn(starts, b, lo, m - 1)
CharAt(starts, b) == CharAtIn(starts, b, 1, Len(starts))

Alphabetic(cs) == cs \cap {"ALPHA", "GREEK", "CYRILLIC"} # {}
\* whether a word may start at character i
StartsWord(cats, i) == i = 1 \/ ~Alphabetic(cats[i]) \/ cats[i] \cap cats[i - 1] = {}
CanBow(cats, starts, b) == /\ b < starts[Len(starts)]
                           /\ starts[CharAt(starts, b)] = b
                           /\ StartsWord(cats, CharAt(starts, b))

\* bytes from b to the next permitted word start or the end of the text
RECURSIVE NextBow(_, _, _)
NextBow(cats, starts, b) == IF b >= starts[Len(starts)] THEN b
                            ELSE IF CanBow(cats, starts, b) THEN b ELSE NextBow(cats, starts, b + 1)
CandidateLength(cats, starts, b) == NextBow(cats, starts, b + 1) - b

\* runs of characters with a category in common, cut off greedily from the left
RECURSIVE RunStop(_, _, _, _)
RunStop(cats, common, i, n) == IF i > n THEN i
                               ELSE IF common \cap cats[i] = {} THEN i
                               ELSE RunStop(cats, common \cap cats[i], i + 1, n)
RECURSIVE RunsFrom(_, _, _)
RunsFrom(cats, i, n) == IF i > n THEN <<>>
                        ELSE LET s == RunStop(cats, cats[i], i + 1, n) IN <<<<i, s>>>> \o RunsFrom(cats, s, n)
Runs(cats) == RunsFrom(cats, 1, Len(cats))
RunOf(runs, i) == runs[CHOOSE k \in DOMAIN runs : runs[k][1] <= i /\ i < runs[k][2]]

Continuous(runs, starts, b) == starts[RunOf(runs, CharAt(starts, b))[2]] - b

\* byte length of the next n characters from byte b
NextChars(starts, b, n) == LET i == CharAt(starts, b) + n
                               s == IF i >= Len(starts) THEN starts[Len(starts)] ELSE starts[i]
                           IN  IF s < b THEN 0 ELSE s - b

Count(starts, b, e) == CharAt(starts, e) - CharAt(starts, b)
Substring(text, starts, b, e) == SubSeq(text, CharAt(starts, b), CharAt(starts, e) - 1)

\* categories common to a range: none when the range leaves the run it starts in
RECURSIVE Common(_, _, _)
Common(cats, i, j) == IF i = j THEN cats[i] ELSE cats[i] \cap Common(cats, i + 1, j)
RangeCats(cats, runs, starts, b, e) ==
  IF b + Continuous(runs, starts, b) < e THEN {}
  ELSE LET i == CharAt(starts, b)
           j == CharAt(starts, e) - 1
       IN  IF j <= i THEN cats[i] ELSE Common(cats, i, j)
=============================================================================
