------------------------------ MODULE LatTrace ------------------------------
(* Recorded lattices: candidates (ASPECT=candidates) or chosen paths           *)
(* (ASPECT=path) of the real tokenizer against the specification.              *)
EXTENDS Lattice, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Aspect == IOEnv.ASPECT
VARIABLES ci, verdict
C == Cases[ci]
SetOf(s) == {s[k] : k \in DOMAIN s}
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* asking the same provider again right away makes no difference
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))

Candidates(o) ==
  LET cats == [k \in DOMAIN o.cats |-> SetOf(o.cats[k])]
      lat  == Build(C.words, C.provs, o.text, cats)
      n    == Starts(o.text)[Len(o.text) + 1]
      none == lat.stuck \/ ~HasPath(lat.nodes, C.matrix, n)
  IN  IF o.err \in {"Hang", "Crash"} THEN "tokenizer: " \o o.err
      ELSE IF o.err # "" /\ ~none THEN "failed with " \o o.err \o " although there are words and a path"
      ELSE IF o.err = "" /\ lat.stuck THEN "no failure although a reachable position has no word"
      ELSE IF SetOf(o.calls) # SetOf(lat.calls) THEN "provider calls (which, where, other words)"
      ELSE IF Squeeze(o.calls) # Squeeze(lat.calls) THEN "order of provider calls"
      ELSE IF o.err # "" THEN "ok"
      ELSE IF SetOf(lat.nodes) \ SetOf(o.nodes) # {} THEN "candidate missing"
      ELSE IF SetOf(o.nodes) \ SetOf(lat.nodes) # {} THEN "candidate too many"
      ELSE IF Len(o.nodes) # Len(lat.nodes) THEN "candidate twice"
      ELSE "ok"

Path(o) ==
  LET n == Starts(o.text)[Len(o.text) + 1]
      cats == [k \in DOMAIN o.cats |-> SetOf(o.cats[k])]
      lat == Build(C.words, C.provs, o.text, cats)
  IN  IF o.err \in {"Hang", "Crash"} THEN "tokenizer: " \o o.err
      ELSE IF o.err # "" THEN IF ~lat.stuck /\ HasPath(lat.nodes, C.matrix, n) THEN "failed with " \o o.err \o " although a path exists" ELSE "ok"
      ELSE IF o.path = <<>> THEN "empty path"
      ELSE IF ~HasPath(o.nodes, C.matrix, n) THEN "a path although none is permitted"
      ELSE IF ~Contiguous(o.path, n) THEN "the path does not lead from begin to end"
      ELSE IF \E k \in DOMAIN o.path : o.path[k] \notin SetOf(o.nodes) THEN "a word of the path is no candidate"
      ELSE IF ~Permitted(o.path, C.matrix) THEN "an inhibited pair is adjacent"
      ELSE IF PathCost(o.path, C.matrix, 0, 1) # LeastCost(o.nodes, C.matrix, n) THEN "the path is not a cheapest one"
      ELSE "ok"
Judge1(o) == IF Aspect = "path" THEN Path(o) ELSE Candidates(o)
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
