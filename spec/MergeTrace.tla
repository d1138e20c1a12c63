----------------------------- MODULE MergeTrace -----------------------------
(* Recorded histories of merges, and the tokens reported in the end.           *)
EXTENDS Merge, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
\* one step: the path before and after, whether it was refused
StepOk(a, z, op, cands) ==
  IF Refused(Len(a), op.b, op.e) THEN op.got = "IndexError" /\ z = a
  ELSE op.got = "" /\ z \in After(a, op, cands)
Bytes(text) == Starts(text)[Len(text) + 1]
Place(ts, text) == [k \in DOMAIN ts |-> [b |-> CharAt(Starts(text), ts[k].b) - 1, e |-> CharAt(Starts(text), ts[k].e) - 1, norm |-> ts[k].norm, df |-> ts[k].df, read |-> ts[k].read,
                                          pos |-> ts[k].pos, oov |-> ts[k].oov, dic |-> ts[k].dic]]
Judge1(o) ==
  LET bad == {k \in DOMAIN o.ops : ~StepOk(o.paths[k], o.paths[k + 1], o.ops[k], o.cands)}
      last == o.paths[Len(o.paths)]
  IN IF o.err # "" THEN "failed: " \o o.err
     ELSE IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                           IN "step " \o ToString(k) \o ": " \o o.ops[k].k \o " " \o ToString(<<o.ops[k].b, o.ops[k].e>>) \o (IF o.ops[k].got # "" THEN " raised " \o o.ops[k].got ELSE "")
     ELSE IF ~Tiled(last, Bytes(o.text)) THEN "the path is not contiguous"
     ELSE IF o.toks # Place(last, o.text) THEN "tokens reported in the end"
     ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
