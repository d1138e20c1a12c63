------------------------------ MODULE Joining ------------------------------
(* What the two joiners make of a path: tokens as in PathTokens.              *)
EXTENDS PathTokens
J == INSTANCE JoinNumeric
K == INSTANCE JoinKatakana
SetOf(s) == {s[k] : k \in DOMAIN s}

\* ---------------------------------------------------------- numerals
KanjiDigits == <<12295, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
UnitOf == [c \in {21313, 30334, 21315, 19975, 20740, 20806} |->
            CASE c = 21313 -> 11 [] c = 30334 -> 12 [] c = 21315 -> 13 [] c = 19975 -> 14 [] c = 20740 -> 18 [] c = 20806 -> 22]
Sym(c) == IF c \in 48..57 THEN c - 48
          ELSE IF c = 44 THEN J!Comma ELSE IF c = 46 THEN J!Point
          ELSE IF \E k \in 1..10 : KanjiDigits[k] = c THEN (CHOOSE k \in 1..10 : KanjiDigits[k] = c) - 1
          ELSE IF c \in DOMAIN UnitOf THEN UnitOf[c] ELSE J!Other
Text(s) == [k \in DOMAIN s |-> IF s[k] = J!Point THEN 46 ELSE 48 + s[k]]
NumPos == <<"名詞", "数詞", "*", "*", "*", "*">>
NumTokens(bf, starts, cats, runs) ==
  [k \in DOMAIN bf |-> [s |-> [n \in DOMAIN bf[k].norm |-> Sym(bf[k].norm[n])],
                        dig |-> RangeCats(cats, runs, starts, bf[k].b, bf[k].e) \cap {"NUMERIC", "KANJINUMERIC"} # {},
                        num |-> bf[k].pos = NumPos]]
NumeralsJoined(bf, starts, cats, runs, normalize) ==
  LET ts == NumTokens(bf, starts, cats, runs)
      Norm(a, z) == IF normalize THEN Text(J!Normalized(J!Spell(ts, a, z))) ELSE Cat(bf, "norm", a, z)
      New(a, z) ==
        IF a = z /\ Norm(a, z) = bf[a].norm THEN bf[a]
        ELSE [b |-> bf[a].b, e |-> bf[z].e, surf |-> Cat(bf, "surf", a, z), norm |-> Norm(a, z), read |-> Cat(bf, "read", a, z),
              df |-> Cat(bf, "df", a, z), pos |-> bf[a].pos, oov |-> FALSE, dic |-> -1, idx |-> 0, units |-> 0]
      out == J!Merged(ts)
  IN Replaced(bf, out, [k \in DOMAIN out |-> New(out[k][1], out[k][2])])

\* ---------------------------------------------------------- katakana
KatTokens(bf, starts, cats, runs, min) ==
  [k \in DOMAIN bf |-> [kata |-> "KATAKANA" \in RangeCats(cats, runs, starts, bf[k].b, bf[k].e),
                        call |-> bf[k].oov \/ Count(starts, bf[k].b, bf[k].e) < min,
                        bow  |-> "NOOOVBOW" \notin cats[CharAt(starts, bf[k].b)]]]
\* the paths it may give: cands(b, e) the candidate words there as <<cost, token>>
RECURSIVE Choices(_)
Choices(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in Head(ss), r \in Choices(Tail(ss))}
KatakanaJoined(bf, starts, cats, runs, min, pos, cands(_, _)) ==
  LET out == K!InOrder(K!Merges(KatTokens(bf, starts, cats, runs, min)))
      Made(a, z) == LET s == Cat(bf, "surf", a, z) IN
                    [b |-> bf[a].b, e |-> bf[z].e, surf |-> s, norm |-> s, read |-> <<>>, df |-> s, pos |-> pos,
                     oov |-> TRUE, dic |-> -1, idx |-> 0, units |-> 0]
      New(a, z) == LET cs == cands(bf[a].b, bf[z].e)
                   IN IF cs = {} THEN {Made(a, z)} ELSE {x[2] : x \in {y \in cs : \A v \in cs : y[1] <= v[1]}}
  IN {Replaced(bf, out, new) : new \in Choices([k \in DOMAIN out |-> New(out[k][1], out[k][2])])}
=============================================================================
