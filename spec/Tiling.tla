------------------------------ MODULE Tiling -------------------------------
(* Token lists as a caller sees them: the tokens cover the original text, and  *)
(* every way of reaching a token gives the same one.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
\* toks[k]: [b, e, s, ...] with s code points
Tiles(text, toks) ==
  IF text = <<>> THEN toks = <<>>
  ELSE /\ toks # <<>> /\ toks[1].b = 0 /\ toks[Len(toks)].e = Len(text)
       /\ \A k \in 1..(Len(toks) - 1) : toks[k].e = toks[k + 1].b
Spelled(text, toks) == \A k \in DOMAIN toks : toks[k].b <= toks[k].e /\ toks[k].s = SubSeq(text, toks[k].b + 1, toks[k].e)
RECURSIVE Joined(_)
Joined(toks) == IF toks = <<>> THEN <<>> ELSE Head(toks).s \o Joined(Tail(toks))
Judge1(o) ==
  LET n == Len(o.toks) IN
  IF o.err # "" THEN "tokenization failed: " \o o.err
  ELSE IF ~Tiles(o.text, o.toks) THEN "tokens do not cover the text one after the other"
  ELSE IF Joined(o.toks) # o.text THEN "surfaces do not concatenate to the text"
  ELSE IF ~Spelled(o.text, o.toks) THEN "surface is not the covered text"
  ELSE IF o.str # o.text THEN "text form of the list"
  ELSE IF o.len # n \/ o.size # n THEN "length"
  ELSE IF Len(o.idx) # 2 * n \/ \E k \in 1..n : o.idx[k] # o.toks[k] \/ o.idx[n + k] # o.toks[k] THEN "indexing"   \* -n..-1, 0..n-1
  ELSE IF \E k \in DOMAIN o.oob : o.oob[k] # "IndexError" THEN "index out of range accepted"
  ELSE IF o.again # o.toks THEN "second iteration differs"
  ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o " mode " \o C.runs[k].mode \o ": " \o ToString(C.runs[k].text) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
