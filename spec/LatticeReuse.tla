---------------------------- MODULE LatticeReuse ----------------------------
(* The lattice of a tokenizer is one buffer used by all its calls.  Each call  *)
(* sizes it, fills lists of nodes by end position and reads them back; a call  *)
(* may fail at any point and then leaves the buffer as it is.  What a call     *)
(* reads must be its own (C05).  ClearFirst is the discipline of the code:     *)
(* empty what the previous call may have left before using the buffer.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Calls, ClearFirst
VARIABLES lists,   \* lists[j]: the calls that own the nodes ending at j
          size, cap, call, pos, phase
vars == <<lists, size, cap, call, pos, phase>>

Init == lists = <<>> /\ size = 0 /\ cap = 0 /\ call = 0 /\ pos = 0 /\ phase = "idle"

Cleared(n) == [j \in 1..Len(lists) |-> IF j <= n THEN {} ELSE lists[j]]

Begin(n) ==
  /\ phase = "idle" /\ call < Calls
  /\ LET l == IF ClearFirst THEN Cleared(size) ELSE lists
         s == IF ClearFirst THEN 0 ELSE size
     IN /\ lists' = IF n > cap THEN l \o [k \in 1..(n - s) |-> {}] ELSE l
        /\ cap' = IF n > cap THEN n ELSE cap
  /\ size' = n /\ call' = call + 1 /\ pos' = 0 /\ phase' = "build"

Visible(j) == j = 0 \/ lists[j] # {}

\* at each position reached: some words ending further on, or a failure
Insert ==
  /\ phase = "build" /\ pos < size
  /\ IF Visible(pos)
     THEN \E E \in SUBSET ((pos + 1)..size) :
            IF E = {} THEN phase' = "idle" /\ UNCHANGED <<lists, pos>>
            ELSE /\ lists' = [j \in 1..Len(lists) |-> IF j \in E THEN lists[j] \cup {call} ELSE lists[j]]
                 /\ pos' = pos + 1 /\ UNCHANGED phase
     ELSE pos' = pos + 1 /\ UNCHANGED <<lists, phase>>
  /\ UNCHANGED <<size, cap, call>>

Finish ==
  /\ phase = "build" /\ pos = size
  /\ \/ /\ lists' = Cleared(size) /\ size' = 0      \* done
     \/ UNCHANGED <<lists, size>>                   \* no path, or a plugin failed
  /\ phase' = "idle" /\ UNCHANGED <<cap, call, pos>>

Next == (\E n \in 1..MaxLen : Begin(n)) \/ Insert \/ Finish
Spec == Init /\ [][Next]_vars

OwnNodes == phase = "build" => \A j \in 1..size : lists[j] \subseteq {call}
Fits     == phase = "build" => size <= Len(lists)
=============================================================================
