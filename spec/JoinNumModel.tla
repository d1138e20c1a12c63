---------------------------- MODULE JoinNumModel ----------------------------
(* All token sequences up to MaxLen over Tokens: the joiner ends, and merges   *)
(* exactly the stretches that are numerals.                                    *)
EXTENDS JoinNumeric, FiniteSets, TLC
CONSTANTS MaxLen
T(s, d, n) == [s |-> s, dig |-> d, num |-> n]
Tokens == { T(<<1>>, TRUE, TRUE), T(<<2>>, TRUE, FALSE), T(<<0, 0, 0>>, TRUE, TRUE), T(<<11>>, TRUE, TRUE), T(<<14>>, TRUE, TRUE),
            T(<<Comma>>, FALSE, FALSE), T(<<Point>>, FALSE, FALSE), T(<<Other>>, FALSE, FALSE),
            T(<<3, Comma>>, TRUE, TRUE), T(<<4, Point>>, TRUE, TRUE) }
VARIABLES ts, j, n
vars == <<ts, j, n>>
Init == /\ \E k \in 0..MaxLen : ts \in [1..k -> Tokens]
        /\ j = JStart /\ n = 0
Next == ~j.end /\ j' = JStep(ts, j) /\ n' = n + 1 /\ UNCHANGED ts
Spec == Init /\ [][Next]_vars
\* termination: every run is started over at most twice
InvEnds == n <= 3 * (Len(ts) + 1)
Ranges == {j.out[k] : k \in DOMAIN j.out}
InvNumerals == \A r \in Ranges : r[1] <= r[2] /\ ts[r[1]].num /\ WellFormed(Spell(ts, r[1], r[2]))
InvOrder == \A k \in 1..(Len(j.out) - 1) : j.out[k][2] < j.out[k + 1][1]
\* stretches: maximal runs of tokens that may belong to a numeral
Part(t) == t.dig \/ IsComma(t) \/ IsPoint(t)
Stretch(a, b) == /\ 1 <= a /\ a <= b /\ b <= Len(ts)
                 /\ \A k \in a..b : Part(ts[k])
                 /\ (a = 1 \/ ~Part(ts[a - 1])) /\ (b = Len(ts) \/ ~Part(ts[b + 1]))
\* a stretch that is a numeral as a whole is joined as a whole
InvWhole == j.end => \A a, b \in 1..Len(ts) :
              Stretch(a, b) /\ ts[a].num /\ WellFormed(Spell(ts, a, b)) => <<a, b>> \in Ranges
\* a sentence's comma or point behind a numeral does not keep it from being joined
\* (once a comma (point) is found misplaced, no comma (point) of that run counts any more)
InvTrailing == j.end => \A a, b \in 1..Len(ts) :
              (Stretch(a, b) /\ a < b /\ ts[a].num /\ ((IsComma(ts[b]) /\ ~IsUnit(ts[b - 1].s[Len(ts[b - 1].s)])) \/ (IsPoint(ts[b]) /\ \A k \in a..(b - 1) : AllIn(ts[k].s, LAMBDA c : c # Point))) 
                 /\ WellFormed(Spell(ts, a, b - 1))) => <<a, b - 1>> \in Ranges
\* digits split by commas that do not group by three: each side on its own
Plain(a, b) == a <= b /\ \A k \in a..b : ts[k].dig /\ AllIn(ts[k].s, IsDigit)
InvSides == j.end => \A a, b \in 1..Len(ts) : \A m \in (a + 1)..(b - 1) :
              (Stretch(a, b) /\ IsComma(ts[m]) /\ Plain(a, m - 1) /\ Plain(m + 1, b) /\ ~WellFormed(Spell(ts, a, b)))
              => /\ ts[a].num => <<a, m - 1>> \in Ranges
                 /\ ts[m + 1].num => <<m + 1, b>> \in Ranges
=============================================================================
