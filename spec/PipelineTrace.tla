---------------------------- MODULE PipelineTrace ----------------------------
(* Recorded tokenizations against the specification of the whole.              *)
EXTENDS Pipeline, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Cfg == C.conf
Modes == {"A", "B", "C"}
Judge1(o) ==
  IF o.text = <<>> THEN IF o.err = "" /\ \A m \in Modes : o.toks[m] = <<>> THEN "ok" ELSE "empty text"
  ELSE
  LET a == Analysis(Cfg, o.text, o.chars)
      outs(m) == {Reports(Cfg, a.view, o.text, p, m) : p \in a.paths}
      got == o.toks
      span(ts) == [k \in DOMAIN ts |-> <<ts[k].b, ts[k].e>>]
  IN IF o.err \in {"Hang", "Crash"} THEN "tokenizer: " \o o.err
     ELSE IF a.many THEN IF o.err # "" THEN "failed: " \o o.err ELSE "ok"
     ELSE IF a.paths = {} THEN IF o.err # "" THEN "ok" ELSE "tokens although there is no path"
     ELSE IF o.err # "" THEN "failed: " \o o.err
     ELSE IF \E p \in a.paths : \A m \in Modes : got[m] = Reports(Cfg, a.view, o.text, p, m) THEN "ok"
     ELSE LET m == IF got.C \notin outs("C") THEN "C" ELSE IF got.A \notin outs("A") THEN "A" ELSE "B"
          IN IF ~\E x \in outs(m) : span(x) = span(got[m])
             THEN "ranges in mode " \o m \o ": " \o ToString(span(got[m])) \o " instead of " \o ToString(span(CHOOSE x \in outs(m) : TRUE))
             ELSE "attributes in mode " \o m
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
