------------------------------ MODULE KatTrace ------------------------------
(* Recorded paths before and after the katakana joiner, and the candidate      *)
(* words of the lattice for every range of the path.                           *)
EXTENDS JoinKatakana, PathTokens, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
SetOf(s) == {s[k] : k \in DOMAIN s}
Init == ci \in 1..Len(Cases) /\ verdict = "run"

Judge1(o) ==
  LET cats   == [k \in DOMAIN o.cats |-> SetOf(o.cats[k])]
      starts == Starts(o.text)
      runs   == Runs(cats)
      bf     == o.before
      ts     == [k \in DOMAIN bf |->
                  [kata |-> "KATAKANA" \in RangeCats(cats, runs, starts, bf[k].b, bf[k].e),
                   call |-> bf[k].oov \/ Count(starts, bf[k].b, bf[k].e) < C.min,
                   bow  |-> "NOOOVBOW" \notin cats[CharAt(starts, bf[k].b)]]]
      out    == InOrder(Merges(ts))
      Cand(a, z) == {k \in DOMAIN o.cands : o.cands[k].w.b = bf[a].b /\ o.cands[k].w.e = bf[z].e}
      Best(a, z) == {o.cands[k].w : k \in {m \in Cand(a, z) : \A n \in Cand(a, z) : o.cands[m].c <= o.cands[n].c}}
      New(a, z)  == LET s == Cat(bf, "surf", a, z) IN
                    [b |-> bf[a].b, e |-> bf[z].e, surf |-> s, norm |-> s, read |-> <<>>, df |-> s, pos |-> C.pos,
                     oov |-> TRUE, dic |-> -1, idx |-> 0, units |-> 0]
      shape  == Replaced(bf, out, [k \in DOMAIN out |-> New(out[k][1], out[k][2])])
      got    == o.after
      span(x) == [k \in DOMAIN x |-> <<x[k].b, x[k].e>>]
      merged(k) == \E m \in DOMAIN out : bf[out[m][1]].b = shape[k].b /\ bf[out[m][2]].e = shape[k].e
      range(k)  == CHOOSE r \in SetOf(out) : bf[r[1]].b = shape[k].b
  IN  IF o.exc # "" THEN "raised " \o o.exc
      ELSE IF span(got) # span(shape) THEN "joined ranges " \o ToString(span(got)) \o " instead of " \o ToString(span(shape))
      ELSE IF \E k \in DOMAIN got : ~merged(k) /\ got[k] # shape[k] THEN "a token outside of the runs was changed"
      ELSE IF \E k \in DOMAIN got : merged(k) /\ Cand(range(k)[1], range(k)[2]) # {} /\ got[k] \notin Best(range(k)[1], range(k)[2])
        THEN "merged token is not the cheapest candidate"
      ELSE IF \E k \in DOMAIN got : merged(k) /\ Cand(range(k)[1], range(k)[2]) = {} /\ got[k] # shape[k]
        THEN "merged out-of-vocabulary token"
      ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
