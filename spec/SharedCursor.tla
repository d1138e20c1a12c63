---------------------------- MODULE SharedCursor ----------------------------
(* All readers of a dictionary file share one file position.  Reading an entry *)
(* remembers the position, moves it to the entry, reads some cells, each read  *)
(* moving it on, and puts it back.  Preempts counts the times a reader is      *)
(* interrupted in between; Locked says whether readers exclude each other.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Cells, Locked, MaxPreempts
VARIABLES pos, pc, orig, got, owner, last, preempts
vars == <<pos, pc, orig, got, owner, last, preempts>>

At(r) == 10 * r                       \* where reader r's entry is
Last == Cells + 3

Init == /\ pos = 0 /\ owner = 0 /\ last = 0 /\ preempts = 0
        /\ pc = [r \in Readers |-> 0] /\ orig = [r \in Readers |-> 0] /\ got = [r \in Readers |-> <<>>]

Turn(r) == /\ last' = r
           /\ preempts' = IF last # 0 /\ last # r /\ pc[last] \notin {0, Last} THEN preempts + 1 ELSE preempts
           /\ preempts' <= MaxPreempts

Step(r) ==
  /\ pc[r] < Last
  /\ Locked => owner \in {0, r}
  /\ Turn(r)
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ owner' = IF pc[r] + 1 = Last THEN 0 ELSE r
  /\ CASE pc[r] = 0 -> orig' = [orig EXCEPT ![r] = pos] /\ UNCHANGED <<pos, got>>
       [] pc[r] = 1 -> pos' = At(r) /\ UNCHANGED <<orig, got>>
       [] pc[r] \in 2..(Cells + 1) -> /\ got' = [got EXCEPT ![r] = Append(@, pos)]
                                      /\ pos' = pos + 1 /\ UNCHANGED orig
       [] OTHER -> pos' = orig[r] /\ UNCHANGED <<orig, got>>

Next == \E r \in Readers : Step(r)
Spec == Init /\ [][Next]_vars

OwnEntry == \A r \in Readers : pc[r] = Last => got[r] = [k \in 1..Cells |-> At(r) + k - 1]
Restored == (\A r \in Readers : pc[r] \in {0, Last}) /\ Locked => pos = 0
=============================================================================
