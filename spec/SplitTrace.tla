----------------------------- MODULE SplitTrace -----------------------------
(* Split modes.  dics[d+1][i+1]: entry i of dictionary d as its source states  *)
(* it: hl the byte length of the headword, A and B its units <<dictionary,     *)
(* index>>.  For each text: the tokens of mode C with their byte spans, what   *)
(* splitting each of them gives, and the tokens of calls in several modes.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Entry(d, i) == C.dics[d + 1][i + 1]
UnitsOf(t, m) == IF t.dic < 0 THEN <<>> ELSE IF m = "A" THEN Entry(t.dic, t.idx).A ELSE Entry(t.dic, t.idx).B
Refined(t, m) == m # "C" /\ Len(UnitsOf(t, m)) >= 2
\* the k-th of units us begins at byte
RECURSIVE UnitBegin(_, _, _)
UnitBegin(us, b, k) == IF k = 1 THEN b ELSE UnitBegin(us, b, k - 1) + Entry(us[k - 1][1], us[k - 1][2]).hl
\* identity and place of the units of token t that spans span
Units(o, t, span, m) ==
  LET us == UnitsOf(t, m) IN
  [k \in DOMAIN us |->
    LET b == o.orig[UnitBegin(us, span[1], k) + 1]
        e == o.orig[UnitBegin(us, span[1], k) + Entry(us[k][1], us[k][2]).hl + 1]
    IN [dic |-> us[k][1], idx |-> us[k][2], b |-> b, e |-> e, s |-> SubSeq(o.text, b + 1, e), oov |-> FALSE]]
Place(t) == [dic |-> t.dic, idx |-> t.idx, b |-> t.b, e |-> t.e, s |-> t.s, oov |-> t.oov]
RECURSIVE Flat(_, _)
Flat(split, m) == IF split = <<>> THEN <<>> ELSE Head(split)[m] \o Flat(Tail(split), m)
Effective(call) == IF call.mode # "-" THEN call.mode ELSE IF call.df # "-" THEN call.df ELSE "C"

Judge1(o) ==
  LET base == Flat(o.split, "C")         \* the tokens of mode C
      okSplit(k, m) == IF Refined(base[k], m) THEN
                          LET g == o.split[k][m] IN [n \in DOMAIN g |-> Place(g[n])] = Units(o, base[k], o.span[k], m)
                       ELSE o.split[k][m] = <<base[k]>>
  IN  IF o.err # "" THEN "failed: " \o o.err
      ELSE IF Len(base) # Len(o.split) THEN "splitting in mode C does not give the token itself"
      ELSE IF \E k \in DOMAIN o.split : \E m \in {"A", "B"} : ~okSplit(k, m) THEN "units of a token split on demand"
      ELSE IF \E k \in DOMAIN o.calls : o.calls[k].toks # Flat(o.split, Effective(o.calls[k]))
        THEN LET k == CHOOSE x \in DOMAIN o.calls : o.calls[x].toks # Flat(o.split, Effective(o.calls[x]))
             IN "call " \o ToString(k) \o " in mode " \o o.calls[k].mode \o " of a tokenizer with default " \o o.calls[k].df
      ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
