------------------------------ MODULE NormTrace ------------------------------
(* Recorded rewriting chains: each stage of the real plugins against Normalize *)
EXTENDS Normalize, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, stage, i, segs, st, verdict
vars == <<ci, stage, i, segs, st, verdict>>
C == Cases[ci]
S == C.stages[stage]

Init == /\ ci \in 1..Len(Cases) /\ stage = 1 /\ i = 1 /\ segs = <<>>
        /\ st = EditInit(Cases[ci].text) /\ verdict = "run"

Finish(v) == verdict' = v /\ PrintT(<<"VERDICT", ci, v>>)

Scan == /\ stage <= Len(C.stages) /\ i <= Len(st.text)
        /\ LET r == IF S.kind = "default" THEN DefaultScan(st.text, i, S, C.chars)
                    ELSE ProlongedScan(st.text, i, S)
           IN i' = r.next /\ segs' = segs \o r.seg
        /\ UNCHANGED <<ci, stage, st, verdict>>

Judge(new) ==
  LET o == C.obs[stage] IN
  IF ~o.seen THEN "ok"
  ELSE IF o.text # new.text THEN "text after stage " \o ToString(stage) \o " (" \o S.kind \o ")"
  ELSE IF o.map # new.map THEN "offsets after stage " \o ToString(stage) \o " (" \o S.kind \o ")"
  ELSE "ok"

Apply == /\ stage <= Len(C.stages) /\ i > Len(st.text)
         /\ LET new == ApplySegs(st, segs) IN
            /\ st' = new
            /\ IF Judge(new) # "ok" THEN Finish(Judge(new))
               ELSE IF stage = Len(C.stages) THEN Finish("ok") ELSE verdict' = verdict
         /\ stage' = stage + 1 /\ i' = 1 /\ segs' = <<>> /\ UNCHANGED ci

Next == /\ verdict = "run"
        /\ IF C.exc # "" THEN Finish("rewriting raised " \o C.exc) /\ UNCHANGED <<ci, stage, i, segs, st>>
           ELSE IF C.stages = <<>> THEN
                Finish(IF C.final.text = st.text /\ C.final.map = st.map THEN "ok" ELSE "text without stages") /\ UNCHANGED <<ci, stage, i, segs, st>>
           ELSE Scan \/ Apply
Spec == Init /\ [][Next]_vars
Inv == MapShape(st) /\ Monotone(st) /\ EndsAtEnd(st, Len(C.text)) /\ StartsAtStart(st)
=============================================================================
