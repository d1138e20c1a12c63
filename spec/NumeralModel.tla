---------------------------- MODULE NumeralModel ----------------------------
(* Every string over Alphabet up to MaxLen: the machine accepts exactly the    *)
(* well-formed ones, with the denoted number.                                  *)
EXTENDS NumeralMachine, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES str, p
Init == str = <<>> /\ p = Start
Next == p.ok /\ Len(str) < MaxLen /\ \E c \in Alphabet : str' = Append(str, c) /\ p' = Feed(p, c)
Spec == Init /\ [][Next]_<<str, p>>
InvAccepts == str # <<>> => ((p.ok /\ Done(p).ok) <=> WellFormed(str))
InvValue == (str # <<>> /\ p.ok /\ Done(p).ok) => Decimal(Done(p).tot) = Normalized(str)
\* a refused prefix never becomes a numeral, so refusing early loses nothing
InvPrefix == ~p.ok => \A c \in Alphabet : ~WellFormed(str) /\ ~WellFormed(Append(str, c))
\* reasons: comma and point are named exactly when the digit group is at fault
Group0 == Open(str)
Before == SubSeq(str, 1, Len(str) - 1)
InvReason ==
  ~p.ok => LET c == str[Len(str)] IN
    (p.err # "NONE") <=> \/ c \in {Comma, Point}
                         \/ IsUnit(c) /\ Unfinished(Open(Before)) # ""
InvReason2 ==
  /\ (~p.ok /\ str[Len(str)] = Comma) => p.err = "COMMA"
  /\ (~p.ok /\ str[Len(str)] = Point) =>
        p.err = IF Unfinished(Open(Before)) = "COMMA" THEN "COMMA" ELSE "POINT"
  /\ (~p.ok /\ IsUnit(str[Len(str)]) /\ Unfinished(Open(Before)) # "") => p.err = Unfinished(Open(Before))
  /\ (p.ok /\ ~Done(p).ok /\ Unfinished(Open(str)) # "") => Done(p).err = Unfinished(Open(str))
=============================================================================
