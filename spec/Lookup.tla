------------------------------- MODULE Lookup -------------------------------
(* Dictionary lookup. A dictionary is a sequence of entries [h |-> bytes of the *)
(* headword, l |-> left connection id]; positions count bytes from 0.           *)
EXTENDS Integers, Sequences, FiniteSets
PrefixAt(h, t, o) == o + Len(h) <= Len(t) /\ \A k \in DOMAIN h : h[k] = t[o + k]
Searchable(e) == e.l # -1
(* <<index, end>> of every entry found at byte o of t *)
Matches(dic, t, o) == {<<i - 1, o + Len(dic[i].h)>> : i \in {j \in DOMAIN dic : Searchable(dic[j]) /\ PrefixAt(dic[j].h, t, o)}}
(* <<dictionary, index, end>> *)
MatchesAll(dics, t, o) == UNION {{<<d - 1, m[1], m[2]>> : m \in Matches(dics[d], t, o)} : d \in DOMAIN dics}

(* The trie walk finds the same set: the words whose bytes a walk from o passes, *)
(* longer ones after shorter ones.                                              *)
RECURSIVE Walk(_, _, _, _)
Walk(dic, t, o, n) ==
  IF o + n > Len(t) \/ ~\E j \in DOMAIN dic : Searchable(dic[j]) /\ Len(dic[j].h) >= n /\ \A k \in 1..n : dic[j].h[k] = t[o + k] THEN {}
  ELSE {<<i - 1, o + n>> : i \in {j \in DOMAIN dic : Searchable(dic[j]) /\ dic[j].h = SubSeq(t, o + 1, o + n)}} \union Walk(dic, t, o, n + 1)
=============================================================================
