----------------------------- MODULE ViewTrace -----------------------------
EXTENDS TextView, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
SetOf(s) == {s[j] : j \in DOMAIN s}

Judge ==
  IF C.exc # "" THEN "view raised " \o C.exc
  ELSE LET text   == C.text
           cats   == [i \in DOMAIN C.cats |-> SetOf(C.cats[i])]
           starts == Starts(text)
           n      == starts[Len(starts)]
           runs   == Runs(cats)
           at(b)  == CharAt(starts, b)
           Bytes  == 1..n                 \* byte b is observation b+1
           bad(P(_)) == \E b \in Bytes : ~P(b)
           POrig(b) == C.orig[b] = C.map[at(b - 1)]
           PCats(b) == SetOf(C.bcats[b]) = cats[at(b - 1)]
           PIdx(b)  == C.idx[b] = at(b - 1) - 1
           PBow(b)  == C.bow[b] = CanBow(cats, starts, b - 1)
           PWcl(b)  == C.wcl[b] = CandidateLength(cats, starts, b - 1)
           PCont(b) == C.cont[b] = Continuous(runs, starts, b - 1)
           PNext(b) == \A k \in DOMAIN C.next[b] : C.next[b][k] = NextChars(starts, b - 1, C.ks[k])
           PPair(p) == /\ p.sub = Substring(text, starts, p.b, p.e)
                       /\ p.count = Count(starts, p.b, p.e)
           PPairC(p) == p.b < p.e => SetOf(p.cats) = RangeCats(cats, runs, starts, p.b, p.e)
       IN  IF C.nbytes # n THEN "byte length"
           ELSE IF C.cats # C.ccats THEN "categories of the characters"
           ELSE IF bad(POrig) \/ C.orig[n + 1] # C.map[Len(text) + 1] THEN "original offset"
           ELSE IF bad(PCats) THEN "categories of a byte"
           ELSE IF bad(PIdx) \/ C.idx[n + 1] # Len(text) THEN "character index"
           ELSE IF bad(PBow) THEN "permitted word start"
           ELSE IF bad(PWcl) THEN "candidate length"
           ELSE IF bad(PCont) THEN "continuous-category length"
           ELSE IF bad(PNext) THEN "byte length of the next characters"
           ELSE IF \E k \in DOMAIN C.pairs : ~PPair(C.pairs[k]) THEN "substring or count"
           ELSE IF \E k \in DOMAIN C.pairs : ~PPairC(C.pairs[k]) THEN "categories of a range"
           ELSE IF ~C.refused THEN "range outside of the text accepted"
           ELSE "ok"
Next == /\ verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
