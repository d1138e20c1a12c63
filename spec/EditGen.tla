------------------------------ MODULE EditGen ------------------------------
(* Every sequence of up to MaxSteps edits of every text of up to MaxLen        *)
(* characters; the invariants are checked in every state, and each complete    *)
(* behaviour is printed for replay into the real builder.                      *)
EXTENDS EditText, TLC, Json, FiniteSets
CONSTANTS MaxLen, MaxSteps, MaxRep
VARIABLES orig, st, hist
vars == <<orig, st, hist>>

Rep(k, n) == [i \in 1..n |-> 10 * k + i]

Init == /\ \E n \in 0..MaxLen : orig = [i \in 1..n |-> i]
        /\ st = EditInit(orig)
        /\ hist = <<>>

Step(b, e, r) ==
  LET new == Replace(st, b, e, r)
      h   == Append(hist, [b |-> b, e |-> e, r |-> r, refused |-> Refused(st, b, e),
                           text |-> new.text, map |-> new.map])
  IN /\ st' = new /\ hist' = h /\ UNCHANGED orig
     /\ Refused(st, b, e) => Len(r) = 1
     /\ (Len(h) = MaxSteps \/ Refused(st, b, e)) =>
           PrintT(<<"GEN", ToJson([orig |-> orig, steps |-> h])>>)

Next == /\ Len(hist) < MaxSteps
        /\ hist # <<>> => ~hist[Len(hist)].refused
        /\ \E b \in -1..(Len(st.text) + 1), e \in -1..(Len(st.text) + 2), n \in 0..MaxRep :
             Step(b, e, Rep(Len(hist) + 1, n))

Spec == Init /\ [][Next]_vars

InvShape    == MapShape(st)
InvMonotone == Monotone(st)
InvEnd      == EndsAtEnd(st, Len(orig))
InvStart    == StartsAtStart(st)
\* characters never touched by an edit keep their original position
InvKept     == \A i \in 1..Len(st.text) : st.text[i] < 10 =>
                   \/ st.map[i] = st.text[i] - 1
                   \* removal in front of a character moves it back to the removed text
                   \/ st.map[i] < st.text[i] - 1 /\ \E j \in 1..Len(hist) : Len(hist[j].r) = 0
=============================================================================
