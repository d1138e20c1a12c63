---------------------------- MODULE NumJoinTrace ----------------------------
(* Recorded paths before and after the numeral joiner.                         *)
EXTENDS JoinNumeric, PathTokens, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
SetOf(s) == {s[k] : k \in DOMAIN s}
Init == ci \in 1..Len(Cases) /\ verdict = "run"

KanjiDigits == <<12295, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
Units == [c \in {21313, 30334, 21315, 19975, 20740, 20806} |->
            CASE c = 21313 -> 11 [] c = 30334 -> 12 [] c = 21315 -> 13 [] c = 19975 -> 14 [] c = 20740 -> 18 [] c = 20806 -> 22]
Sym(c) == IF c \in 48..57 THEN c - 48
          ELSE IF c = 44 THEN Comma ELSE IF c = 46 THEN Point
          ELSE IF \E k \in 1..10 : KanjiDigits[k] = c THEN (CHOOSE k \in 1..10 : KanjiDigits[k] = c) - 1
          ELSE IF c \in DOMAIN Units THEN Units[c] ELSE Other
Text(s) == [k \in DOMAIN s |-> IF s[k] = Point THEN 46 ELSE 48 + s[k]]
NumPos == <<"名詞", "数詞", "*", "*", "*", "*">>

Judge1(o) ==
  LET cats   == [k \in DOMAIN o.cats |-> SetOf(o.cats[k])]
      starts == Starts(o.text)
      runs   == Runs(cats)
      bf     == o.before
      ts     == [k \in DOMAIN bf |->
                  [s |-> [n \in DOMAIN bf[k].norm |-> Sym(bf[k].norm[n])],
                   dig |-> RangeCats(cats, runs, starts, bf[k].b, bf[k].e) \cap {"NUMERIC", "KANJINUMERIC"} # {},
                   num |-> bf[k].pos = NumPos]]
      Norm(a, z) == IF C.normalize THEN Text(Normalized(Spell(ts, a, z))) ELSE Cat(bf, "norm", a, z)
      New(a, z) ==
        IF a = z /\ Norm(a, z) = bf[a].norm THEN bf[a]
        ELSE [b |-> bf[a].b, e |-> bf[z].e, surf |-> Cat(bf, "surf", a, z), norm |-> Norm(a, z), read |-> Cat(bf, "read", a, z),
              df |-> Cat(bf, "df", a, z), pos |-> bf[a].pos, oov |-> FALSE, dic |-> -1, idx |-> 0, units |-> 0]
      out    == Merged(ts)
      want   == Replaced(bf, out, [k \in DOMAIN out |-> New(out[k][1], out[k][2])])
      got    == o.after
      span(x) == [k \in DOMAIN x |-> <<x[k].b, x[k].e>>]
  IN  IF o.exc # "" THEN "raised " \o o.exc
      ELSE IF span(got) # span(want) THEN "joined ranges " \o ToString(span(got)) \o " instead of " \o ToString(span(want))
      ELSE IF \E k \in DOMAIN got : got[k].norm # want[k].norm THEN "normalized form"
      ELSE IF got # want THEN "attributes of a token"
      ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
