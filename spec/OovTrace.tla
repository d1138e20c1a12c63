------------------------------ MODULE OovTrace ------------------------------
(* Recorded answers of the real providers, one call per step.                  *)
EXTENDS Oov, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, verdict
vars == <<ci, k, verdict>>
C == Cases[ci]
SetOf(s) == {s[j] : j \in DOMAIN s}
Init == ci \in 1..Len(Cases) /\ k = 1 /\ verdict = "run"

Judge(call) ==
  LET cats   == [i \in DOMAIN C.cats |-> SetOf(C.cats[i])]
      starts == Starts(C.text)
      offers == IF C.kind = "simple" THEN SimpleOffers(C.simple, cats, starts, call.b, call.others)
                ELSE CategoryOffers(C.defs, C.entries, cats, Runs(cats), starts, call.b, call.others)
      word(x) == [e |-> x.e, l |-> x.l, r |-> x.r, c |-> x.c, pos |-> x.pos]
      want   == {o.w : o \in offers}
      got    == {word(call.nodes[j]) : j \in DOMAIN call.nodes}
      times(w) == Cardinality({o \in offers : o.w = w})
      given(w) == Cardinality({j \in DOMAIN call.nodes : word(call.nodes[j]) = w})
      spell(x) == Substring(C.text, starts, call.b, x.e)
      wrong(x) == \/ x.b # call.b \/ ~x.oov \/ x.dic # -1
      misspelt(x) == x.surf # spell(x) \/ x.norm # spell(x) \/ x.df # spell(x) \/ x.read # <<>>
                     \/ x.len # x.e - x.b \/ x.units # 0
  IN  IF call.exc # "" THEN "provider raised " \o call.exc
      ELSE IF got \ want # {} THEN "word offered that should not be"
      ELSE IF want \ got # {} THEN "word missing"
      ELSE IF \E w \in got : given(w) > times(w) THEN "word offered twice"
      ELSE IF \E j \in DOMAIN call.nodes : wrong(call.nodes[j]) THEN "begin, mark or dictionary of an offered word"
      ELSE IF \E j \in DOMAIN call.nodes : misspelt(call.nodes[j]) THEN "forms of an offered word"
      ELSE "ok"

Provide == LET j == Judge(C.calls[k]) IN
  /\ verdict' = IF j # "ok" THEN C.kind \o ": " \o j ELSE IF k = Len(C.calls) THEN "ok" ELSE "run"
  /\ k' = k + 1 /\ UNCHANGED ci
  /\ verdict' # "run" => PrintT(<<"VERDICT", ci, verdict'>>)
Broken == verdict' = "provider set-up raised " \o C.exc /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED <<ci, k>>
Next == verdict = "run" /\ (IF C.exc # "" THEN Broken ELSE Provide)
Spec == Init /\ [][Next]_vars
=============================================================================
