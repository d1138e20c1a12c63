--------------------------- MODULE NumeralMachine ---------------------------
(* The numeral recognizer: symbols one by one, refusing at the first symbol    *)
(* that cannot continue, or at the end.                                        *)
EXTENDS Numeral
Start == [tot |-> Nothing, sub |-> Nothing, d |-> <<>>, pt |-> -1, len |-> 0, comma |-> FALSE, err |-> "NONE", ok |-> TRUE, why |-> ""]
Cur(p) == [d |-> p.d, x |-> IF p.pt < 0 THEN 0 ELSE p.pt - Len(p.d)]
Refuse(p, e) == [p EXCEPT !.ok = FALSE, !.err = e]
Hanging(p) == p.pt >= 0 /\ p.pt = Len(p.d)
BadComma(p) == p.comma /\ p.len # 3
CloseGroup(p) == [p EXCEPT !.d = <<>>, !.pt = -1, !.len = 0, !.comma = FALSE]

OnPoint(p) == IF p.d = <<>> THEN Refuse(p, "POINT")
              ELSE IF BadComma(p) THEN Refuse(p, "COMMA")
              ELSE IF p.pt >= 0 THEN Refuse(p, "POINT")
              ELSE [p EXCEPT !.pt = Len(p.d), !.comma = FALSE]
OnComma(p) == IF p.d = <<>> \/ p.pt >= 0 THEN Refuse(p, "COMMA")
              ELSE IF p.comma THEN (IF p.len = 3 THEN [p EXCEPT !.len = 0] ELSE Refuse(p, "COMMA"))
              ELSE IF p.len <= 3 /\ NotAllZero(p.d) THEN [p EXCEPT !.comma = TRUE, !.len = 0]
              ELSE Refuse(p, "COMMA")
OnDigit(p, c) == [p EXCEPT !.d = Append(@, c), !.len = @ + 1]
OnSmall(p, c) ==
  LET m == Shift(Cur(p), c - 10)
  IN IF Fits(p.sub, m) THEN CloseGroup([p EXCEPT !.sub = Plus(@, m)]) ELSE Refuse(p, p.err)
OnLarge(p, c) ==
  LET m == Plus(p.sub, Cur(p)) IN
  IF ~Fits(p.sub, Cur(p)) \/ IsNothing(m) THEN Refuse(p, p.err)
  ELSE LET q == Shift(m, c - 10)
       IN IF Fits(p.tot, q) THEN CloseGroup([p EXCEPT !.tot = Plus(@, q), !.sub = Nothing]) ELSE Refuse(p, p.err)
Feed(p, c) ==
  IF c = Point THEN OnPoint(p)
  ELSE IF c = Comma THEN OnComma(p)
  ELSE IF IsDigit(c) THEN OnDigit(p, c)
  ELSE IF IsUnit(c) THEN
     IF Hanging(p) THEN Refuse(p, "POINT")
     ELSE IF BadComma(p) THEN Refuse(p, "COMMA")
     ELSE IF IsSmall(c) THEN OnSmall(p, c) ELSE OnLarge(p, c)
  ELSE Refuse(p, p.err)
Done(p) ==
  IF Hanging(p) THEN Refuse(p, "POINT")
  ELSE IF BadComma(p) THEN Refuse(p, "COMMA")
  ELSE LET m == Plus(p.sub, Cur(p)) IN
       IF Fits(p.sub, Cur(p)) /\ Fits(p.tot, m)
       THEN [p EXCEPT !.tot = Plus(p.tot, m), !.sub = Nothing, !.d = <<>>]
       ELSE Refuse(p, p.err)

RECURSIVE FeedAll(_, _)
\* [p, n]: the state after s, and how many symbols were accepted
FeedAll(p, s) == IF s = <<>> THEN [p |-> p, n |-> 0]
                 ELSE LET q == Feed(p, Head(s))
                      IN IF ~q.ok THEN [p |-> q, n |-> 0]
                         ELSE LET r == FeedAll(q, Tail(s)) IN [r EXCEPT !.n = @ + 1]
=============================================================================
