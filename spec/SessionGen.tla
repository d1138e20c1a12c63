----------------------------- MODULE SessionGen -----------------------------
(* All sessions of Depth events after the first opening (exhaustively, or long *)
(* random ones in simulation), printed for replay.                             *)
EXTENDS Session, TLC, Json, FiniteSets
CONSTANTS Configs, Texts, Modes, TokModes, MaxDicts, MaxToks, Depth, Reads, Closes
VARIABLES s, hist
vars == <<s, hist>>

OpenDicts == {d \in 1..Len(s.dicts) : s.dicts[d].open}

Events ==
  (IF Cardinality(OpenDicts) < MaxDicts THEN {[op |-> "open", cfg |-> c] : c \in Configs} ELSE {})
  \cup (IF Cardinality({t \in 1..Len(s.toks) : Usable(s, t)}) < MaxToks
        THEN {[op |-> "create", d |-> d, m |-> m] : d \in OpenDicts, m \in Modes} ELSE {})
  \cup {[op |-> "tok", t |-> t, x |-> x, m |-> m] : t \in {u \in 1..Len(s.toks) : Usable(s, u)}, x \in Texts, m \in TokModes}
  \cup (IF Reads THEN {[op |-> "read", r |-> r] : r \in {q \in 1..Len(s.res) : Readable(s, q)}} ELSE {})
  \cup (IF Closes THEN {[op |-> "close", d |-> d] : d \in OpenDicts} ELSE {})

Init == /\ \E c \in Configs : hist = <<[op |-> "open", cfg |-> c]>>
        /\ s = Apply(Empty, hist[1])
Next == /\ Len(hist) < Depth
        /\ \E ev \in Events :
             /\ Enabled(s, ev)
             /\ s' = Apply(s, ev)
             /\ hist' = Append(hist, ev)
             /\ (Len(hist') = Depth /\ ev.op \in {"tok", "read", "close"}) => PrintT(<<"GEN", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A t \in 1..Len(s.toks) : s.toks[t].d \in 1..Len(s.dicts)
          /\ \A r \in 1..Len(s.res) : s.res[r].m \in 1..3
=============================================================================
