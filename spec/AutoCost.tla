------------------------------ MODULE AutoCost ------------------------------
(* Automatic costs of user words: from the word costs of the segmentation of   *)
(* the word's surface with the dictionaries loaded before.                     *)
EXTENDS Integers, Sequences
Auto == -32768
PerToken == 20
Clamp(x) == IF x > 32767 THEN 32767 ELSE IF x < -32768 THEN -32768 ELSE x
Derived(path) == Clamp(path[Len(path)] - path[1] - PerToken * Len(path))
(* user dictionaries only; the system dictionary's costs are always its own *)
CostAfterLoading(k, written, path) == IF k > 0 /\ written = Auto THEN Derived(path) ELSE written
=============================================================================
