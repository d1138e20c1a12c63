------------------------------ MODULE Numeral ------------------------------
(* What a numeral string denotes.  Symbols: 0..9 digits, 10+k the unit 10^k    *)
(* (11..13 small, 14, 18, 22 large), Comma, Point, Other.                     *)
(* A number is [d, x]: the digits d (most significant first) times 10^x.       *)
EXTENDS Integers, Sequences
Comma == 100
Point == 101
Other == 102
IsDigit(c) == c \in 0..9
IsSmall(c) == c \in 11..13
IsLarge(c) == c \in 14..22
IsUnit(c)  == IsSmall(c) \/ IsLarge(c)

RECURSIVE Zeros(_), SplitAt(_, _)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
\* the pieces of s between the occurrences of c
SplitAt(s, c) ==
  IF \A i \in DOMAIN s : s[i] # c THEN <<s>>
  ELSE LET i == CHOOSE j \in DOMAIN s : s[j] = c /\ \A k \in 1..(j - 1) : s[k] # c
       IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)

AllIn(s, T(_)) == \A i \in DOMAIN s : T(s[i])
NotAllZero(s) == \E i \in DOMAIN s : s[i] # 0

\* ---- digit groups: 12  1,234,567  1,234.5  00.1
IntPart(s) ==
  LET p == SplitAt(s, Comma) IN
  /\ \A i \in DOMAIN p : AllIn(p[i], IsDigit)
  /\ IF Len(p) = 1 THEN Len(s) >= 1
     ELSE /\ Len(p[1]) \in 1..3 /\ NotAllZero(p[1])
          /\ \A i \in 2..Len(p) : Len(p[i]) = 3
Group(s) ==
  LET p == SplitAt(s, Point) IN
  /\ Len(p) \in 1..2
  /\ IntPart(p[1])
  /\ Len(p) = 2 => Len(p[2]) >= 1 /\ AllIn(p[2], IsDigit)

RECURSIVE Digits(_)
Digits(s) == IF s = <<>> THEN <<>>
             ELSE (IF IsDigit(Head(s)) THEN <<Head(s)>> ELSE <<>>) \o Digits(Tail(s))
GroupNumber(s) ==
  LET p == SplitAt(s, Point)
  IN [d |-> Digits(s), x |-> IF Len(p) = 2 THEN 0 - Len(p[2]) ELSE 0]

\* ---- numbers
Nothing == [d |-> <<>>, x |-> 0]
IsNothing(n) == n.d = <<>>
IntLen(n) == Len(n.d) + n.x
Shift(n, k) == IF IsNothing(n) THEN [d |-> <<1>>, x |-> k] ELSE [n EXCEPT !.x = @ + k]
\* b may follow a if it fits into the places a leaves free
Fits(a, b) == IsNothing(a) \/ IsNothing(b) \/ a.x >= IntLen(b)
Plus(a, b) == IF IsNothing(a) THEN b ELSE IF IsNothing(b) THEN a
              ELSE [d |-> a.d \o Zeros(a.x - IntLen(b)) \o b.d, x |-> b.x]

\* ---- terms: a digit group (or nothing) and the unit behind it (0 at the end)
RECURSIVE Terms(_, _)
Terms(s, g) ==
  IF s = <<>> THEN (IF g = <<>> THEN <<>> ELSE <<[g |-> g, u |-> 0]>>)
  ELSE IF IsUnit(Head(s)) THEN <<[g |-> g, u |-> Head(s)]>> \o Terms(Tail(s), <<>>)
  ELSE Terms(Tail(s), Append(g, Head(s)))

Bad == [ok |-> FALSE, n |-> Nothing]
Good(n) == [ok |-> TRUE, n |-> n]
TermNumber(t) == IF t.g = <<>> THEN Nothing ELSE GroupNumber(t.g)
\* the value of terms ts given what the large sections (tot) and the small terms (sub) so far denote
RECURSIVE Eval(_, _, _)
Eval(ts, tot, sub) ==
  IF ts = <<>> THEN IF Fits(tot, sub) THEN Good(Plus(tot, sub)) ELSE Bad
  ELSE LET t == Head(ts)
           n == TermNumber(t)
       IN  IF ~(t.g = <<>> \/ Group(t.g)) THEN Bad
           ELSE IF t.u = 0 THEN (IF Fits(sub, n) THEN Eval(Tail(ts), tot, Plus(sub, n)) ELSE Bad)
           ELSE IF IsSmall(t.u)
                THEN LET m == Shift(n, t.u - 10)
                     IN IF Fits(sub, m) THEN Eval(Tail(ts), tot, Plus(sub, m)) ELSE Bad
           ELSE LET m == Plus(sub, n) IN
                IF ~Fits(sub, n) \/ IsNothing(m) THEN Bad
                ELSE LET q == Shift(m, t.u - 10)
                     IN IF Fits(tot, q) THEN Eval(Tail(ts), Plus(tot, q), Nothing) ELSE Bad
Value(s) == Eval(Terms(s, <<>>), Nothing, Nothing)
WellFormed(s) == s # <<>> /\ AllIn(s, LAMBDA c : c # Other) /\ Value(s).ok

\* ---- decimal notation: every integer digit, no trailing zeros behind the point
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Decimal(n) ==
  IF n.x >= 0 THEN n.d \o Zeros(n.x)
  ELSE LET i == SubSeq(n.d, 1, IntLen(n))
           f == StripZeros(SubSeq(n.d, IntLen(n) + 1, Len(n.d)))
       IN i \o (IF f = <<>> THEN <<>> ELSE <<Point>> \o f)
Normalized(s) == Decimal(Value(s).n)

\* ---- why a string is refused
\* the digit group that is open at the end of s
RECURSIVE Open(_)
Open(s) == IF s = <<>> \/ IsUnit(s[Len(s)]) THEN <<>> ELSE Append(Open(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* a group that may still become one: the commas and the point in it are where they may be
CommaFault(g) ==
  LET ip == SplitAt(g, Point)[1]
      p  == SplitAt(ip, Comma)
  IN  /\ Len(p) > 1
      /\ \/ Len(p[1]) \notin 1..3 \/ ~NotAllZero(p[1])
         \/ \E i \in 2..(Len(p) - 1) : Len(p[i]) # 3
         \/ (\E i \in DOMAIN g : g[i] = Point) /\ Len(p[Len(p)]) # 3
CommaAfterPoint(g) == LET p == SplitAt(g, Point) IN Len(p) > 1 /\ \E i \in 2..Len(p) : \E j \in DOMAIN p[i] : p[i][j] = Comma
PointFault(g) == LET p == SplitAt(g, Point) IN Len(p) > 2 \/ (Len(p) = 2 /\ p[1] = <<>>)
\* an unfinished group: what would be missing if it ended here
Unfinished(g) ==
  LET p == SplitAt(g, Point)
      q == SplitAt(p[1], Comma)
  IN  IF Len(p) = 2 /\ p[2] = <<>> THEN "POINT"
      ELSE IF Len(p) = 1 /\ Len(q) > 1 /\ Len(q[Len(q)]) # 3 THEN "COMMA" ELSE ""
=============================================================================
