----------------------------- MODULE LookupTrace ----------------------------
(* Recorded lookups: dics, and per query the dictionary asked (or -1 for the   *)
(* whole set), the text's bytes, the position and the answer in order.         *)
EXTENDS Lookup, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
SetOf(s) == {s[k] : k \in DOMAIN s}
Judge1(o) ==
  LET want == IF o.dic < 0 THEN MatchesAll(C.dics, o.text, o.at)
              ELSE {<<o.dic, m[1], m[2]>> : m \in Matches(C.dics[o.dic + 1], o.text, o.at)}
  IN IF o.exc # "" THEN "lookup: " \o o.exc
     ELSE IF want \ SetOf(o.got) # {} THEN "a matching entry is not found"
     ELSE IF SetOf(o.got) \ want # {} THEN "an entry is found that does not match or may not be found"
     ELSE IF Len(o.got) # Cardinality(want) THEN "an entry is found twice"
     ELSE "ok"
Judge == IF C.exc # "" THEN "opening: " \o C.exc ELSE
         LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (query " \o ToString(k) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
