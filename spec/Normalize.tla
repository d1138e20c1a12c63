------------------------------ MODULE Normalize ------------------------------
(* Input text rewriting: the default rewriting and prolonged sound marks.      *)
(* A stage scans a snapshot of the text from left to right, collecting the     *)
(* segments it replaces; applying them from right to left gives the new text.  *)
EXTENDS EditText

MatchAt(text, i, key) == /\ i + Len(key) - 1 <= Len(text)
                         /\ \A j \in 1..Len(key) : text[i + j - 1] = key[j]

\* index of the longest key of the table matching at i (1-based), 0 if none
LongestKey(text, i, table) ==
  LET hits == {k \in DOMAIN table : MatchAt(text, i, table[k][1])}
  IN  IF hits = {} THEN 0
      ELSE CHOOSE k \in hits : \A m \in hits : Len(table[m][1]) <= Len(table[k][1])

\* chars[n] = <<code point, lower case, NFKC of the lower case>>
Folded(cp, chars, ignore) ==
  LET row == chars[CHOOSE n \in DOMAIN chars : chars[n][1] = cp]
  IN  IF \E n \in DOMAIN ignore : <<ignore[n]>> = row[2] THEN row[2] ELSE row[3]

RECURSIVE RunEnd(_, _, _)
RunEnd(text, i, marks) ==       \* first position from i on that holds no mark
  IF i > Len(text) THEN i
  ELSE IF \E n \in DOMAIN marks : marks[n] = text[i] THEN RunEnd(text, i + 1, marks) ELSE i

\* One step of the scan at position i: where it goes on, and the segment it adds.
DefaultScan(text, i, stage, chars) ==
  LET k == LongestKey(text, i, stage.table) IN
  IF k # 0 THEN [next |-> i + Len(stage.table[k][1]),
                 seg |-> <<[b |-> i - 1, e |-> i - 1 + Len(stage.table[k][1]), r |-> stage.table[k][2]]>>]
  ELSE LET f == Folded(text[i], chars, stage.ignore) IN
       [next |-> i + 1,
        seg |-> IF f = <<text[i]>> THEN <<>> ELSE <<[b |-> i - 1, e |-> i, r |-> f]>>]

ProlongedScan(text, i, stage) ==
  LET j == RunEnd(text, i, stage.marks) IN
  IF j - i >= 2 THEN [next |-> j, seg |-> <<[b |-> i - 1, e |-> j - 1, r |-> stage.sym]>>]
  ELSE [next |-> IF j = i THEN i + 1 ELSE j, seg |-> <<>>]

RECURSIVE ApplySegs(_, _)
ApplySegs(st, segs) ==
  IF segs = <<>> THEN st
  ELSE LET s == segs[Len(segs)]
       IN  ApplySegs(Edit(st, s.b, s.e, s.r), SubSeq(segs, 1, Len(segs) - 1))
=============================================================================
