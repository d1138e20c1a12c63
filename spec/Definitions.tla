----------------------------- MODULE Definitions -----------------------------
(* The line formats of the definition files, on code points: categories        *)
(* ("NAME invoke group length"), unknown words ("NAME,left,right,cost,pos*6"), *)
(* rewriting ("c" not to normalize, "from to").                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Blank == {9, 32, 12288}
RECURSIVE Strip(_), StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == IF s # <<>> /\ s[1] \in Blank THEN Strip(Tail(s)) ELSE StripR(s)
\* columns between runs of blanks
Cols(s) == LET t == Strip(s)
               edge == {i \in 1..Len(t) : t[i] \notin Blank /\ (i = 1 \/ t[i - 1] \in Blank)}
               endOf(i) == CHOOSE j \in i..Len(t) : (j = Len(t) \/ t[j + 1] \in Blank) /\ \A k \in i..j : t[k] \notin Blank
               order == SetToSortSeq(edge, <)
           IN [k \in 1..Len(order) |-> SubSeq(t, order[k], endOf(order[k]))]
\* fields between commas
Fields(s) == LET cut == SetToSortSeq({i \in 1..Len(s) : s[i] = 44}, <)
                 n == Len(cut)
                 from(k) == IF k = 1 THEN 1 ELSE cut[k - 1] + 1
                 to(k) == IF k = n + 1 THEN Len(s) ELSE cut[k] - 1
             IN [k \in 1..(n + 1) |-> SubSeq(s, from(k), to(k))]
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
IsInt(x) == LET s == Strip(x) IN Digits(s) \/ (s # <<>> /\ s[1] \in {43, 45} /\ Digits(Tail(s)))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Comment(s) == s = <<>> \/ s[1] = 35

\* names: the categories there are; returns the ones defined, or {<<0>>} if refused
Bad == {<<0>>}
RECURSIVE Categories(_, _, _)
Categories(lines, names, defd) ==
  IF lines = <<>> THEN defd
  ELSE LET s == Strip(Head(lines))
           cs == Cols(s)
       IN IF Comment(s) \/ Starts(s, <<48, 120>>) THEN Categories(Tail(lines), names, defd)
          ELSE IF Len(cs) < 4 THEN Bad
          ELSE IF cs[1] \notin names \/ cs[1] \in defd \/ ~IsInt(cs[4]) THEN Bad
          ELSE Categories(Tail(lines), names, defd \cup {cs[1]})
UnkLineOk(line, defd, poss) ==
  LET s == Strip(line)
      f == Fields(s)
  IN s = <<>> \/ (/\ Len(f) >= 10
                  /\ f[1] \in defd
                  /\ IsInt(f[2]) /\ IsInt(f[3]) /\ IsInt(f[4])
                  /\ SubSeq(f, 5, 10) \in poss)
Unknowns(lines, defd, poss) == \A i \in 1..Len(lines) : UnkLineOk(lines[i], defd, poss)

RewriteOk(lines) ==
  LET t == SelectSeq([i \in 1..Len(lines) |-> Strip(lines[i])], LAMBDA x : ~Comment(x))
      cs(i) == Cols(t[i])
  IN /\ \A i \in 1..Len(t) : Len(cs(i)) = 2 \/ (Len(cs(i)) = 1 /\ Len(cs(i)[1]) = 1)
     /\ \A i, j \in 1..Len(t) : (i # j /\ Len(cs(i)) = 2 /\ Len(cs(j)) = 2) => cs(i)[1] # cs(j)[1]
=============================================================================
