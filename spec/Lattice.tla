------------------------------ MODULE Lattice ------------------------------
(* Candidate words of a text and the cheapest path over them.                  *)
(* words: searchable entries [h, l, r, c, dic, idx]; provs: scripted providers,*)
(* each a sequence of offers [ch, n, l, r, c, when].  Positions are bytes.     *)
EXTENDS TextView
Inhibited == 32767

\* ------------------------------------------------ candidates
MatchesAt(text, i, h) == i + Len(h) - 1 <= Len(text) /\ SubSeq(text, i, i + Len(h) - 1) = h
\* whether a dictionary word may end before character j (n+1: the end)
MayEnd(cats, j) == j = Len(cats) + 1 \/ StartsWord(cats, j)
RECURSIVE DictWords(_, _, _, _, _, _)
DictWords(words, k, text, cats, starts, i) ==
  IF k > Len(words) THEN <<>>
  ELSE LET w == words[k] IN
       (IF MatchesAt(text, i, w.h) /\ MayEnd(cats, i + Len(w.h))
        THEN <<[b |-> starts[i], e |-> starts[i + Len(w.h)], l |-> w.l, r |-> w.r, c |-> w.c, dic |-> w.dic, idx |-> w.idx, oov |-> FALSE]>>
        ELSE <<>>) \o DictWords(words, k + 1, text, cats, starts, i)
RECURSIVE Offered(_, _, _, _, _, _)
Offered(offers, k, text, starts, i, others) ==
  IF k > Len(offers) THEN <<>>
  ELSE LET o == offers[k] IN
       (IF o.ch = text[i] /\ i + o.n - 1 <= Len(text) /\ (o.when = "alone" => ~others) /\ (o.when = "with" => others)
        THEN <<[b |-> starts[i], e |-> starts[i + o.n], l |-> o.l, r |-> o.r, c |-> o.c, dic |-> -1, idx |-> 0, oov |-> TRUE]>>
        ELSE <<>>) \o Offered(offers, k + 1, text, starts, i, others)
\* the providers from the k-th on: [nodes, calls]
RECURSIVE Ask(_, _, _, _, _, _)
Ask(provs, k, text, starts, i, others) ==
  IF k > Len(provs) THEN [nodes |-> <<>>, calls |-> <<>>]
  ELSE LET ns == Offered(provs[k], 1, text, starts, i, others)
           r  == Ask(provs, k + 1, text, starts, i, others \/ ns # <<>>)
       IN [nodes |-> ns \o r.nodes, calls |-> <<[p |-> k, b |-> starts[i], others |-> others]>> \o r.calls]
\* all candidates that begin at character i
CandidatesAt(words, provs, text, cats, starts, i) ==
  LET dw == DictWords(words, 1, text, cats, starts, i)
      has == dw # <<>>
      normal == "NOOOVBOW" \notin cats[i]
      last == Len(provs)
      a == IF normal THEN Ask(provs, 1, text, starts, i, has)
           ELSE IF has THEN [nodes |-> <<>>, calls |-> <<>>]
           ELSE [nodes |-> Offered(provs[last], 1, text, starts, i, FALSE), calls |-> <<[p |-> last, b |-> starts[i], others |-> FALSE]>>]
  IN [nodes |-> dw \o a.nodes, calls |-> a.calls]
\* the lattice, character by character: [nodes, calls, ends, stuck]
RECURSIVE BuildFrom(_, _, _, _, _, _, _)
BuildFrom(words, provs, text, cats, starts, i, lat) ==
  IF i > Len(text) \/ lat.stuck THEN lat
  ELSE IF ~StartsWord(cats, i) \/ starts[i] \notin lat.ends THEN BuildFrom(words, provs, text, cats, starts, i + 1, lat)
  ELSE LET x == CandidatesAt(words, provs, text, cats, starts, i)
           ends == {x.nodes[k].e : k \in DOMAIN x.nodes}
       IN BuildFrom(words, provs, text, cats, starts, i + 1,
                    [nodes |-> lat.nodes \o x.nodes, calls |-> lat.calls \o x.calls, ends |-> lat.ends \cup ends, stuck |-> x.nodes = <<>>])
Build(words, provs, text, cats) ==
  BuildFrom(words, provs, text, cats, Starts(text), 1, [nodes |-> <<>>, calls |-> <<>>, ends |-> {0}, stuck |-> FALSE])

\* ------------------------------------------------ the cheapest path
Conn(matrix, rid, lid) == matrix[rid + 1][lid + 1]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* D[p]: the right ids with which position p can be reached, and the least cost for each
RECURSIVE Reach(_, _, _, _, _)
Reach(nodes, matrix, ends, p, D) ==
  IF ends = {} THEN D
  ELSE LET q == MinOf(ends)
           here == {k \in DOMAIN nodes : nodes[k].e = q}
           From(k) == {s \in D[nodes[k].b] : Conn(matrix, s[1], nodes[k].l) # Inhibited}
           Cost(k) == MinOf({s[2] + Conn(matrix, s[1], nodes[k].l) : s \in From(k)}) + nodes[k].c
           all == {<<nodes[k].r, Cost(k)>> : k \in {m \in here : From(m) # {}}}
           best == {x \in all : \A y \in all : y[1] = x[1] => x[2] <= y[2]}
       IN Reach(nodes, matrix, ends \ {q}, q, [D EXCEPT ![q] = best])
Distances(nodes, matrix, n) ==
  Reach(nodes, matrix, {nodes[k].e : k \in DOMAIN nodes}, 0, [p \in 0..n |-> IF p = 0 THEN {<<0, 0>>} ELSE {}])
AtEnd(nodes, matrix, n) ==
  {s[2] + Conn(matrix, s[1], 0) : s \in {x \in Distances(nodes, matrix, n)[n] : Conn(matrix, x[1], 0) # Inhibited}}
HasPath(nodes, matrix, n) == AtEnd(nodes, matrix, n) # {}
LeastCost(nodes, matrix, n) == MinOf(AtEnd(nodes, matrix, n))

RECURSIVE PathCost(_, _, _, _)
PathCost(path, matrix, rid, k) ==
  IF k > Len(path) THEN Conn(matrix, rid, 0)
  ELSE Conn(matrix, rid, path[k].l) + path[k].c + PathCost(path, matrix, path[k].r, k + 1)
Permitted(path, matrix) ==
  /\ Conn(matrix, 0, path[1].l) # Inhibited /\ Conn(matrix, path[Len(path)].r, 0) # Inhibited
  /\ \A k \in 1..(Len(path) - 1) : Conn(matrix, path[k].r, path[k + 1].l) # Inhibited
Contiguous(path, n) == /\ path[1].b = 0 /\ path[Len(path)].e = n
                       /\ \A k \in 1..(Len(path) - 1) : path[k].e = path[k + 1].b
=============================================================================
