------------------------------ MODULE Pipeline ------------------------------
(* Tokenization as a whole: a text goes through the configured rewritings, the *)
(* cheapest paths over the words of the dictionaries and providers are found,  *)
(* the configured joiners change the path, and the mode splits its tokens.     *)
(* Where several paths are cheapest, or several candidates of a joined range,  *)
(* any of them may be taken.                                                   *)
(*                                                                             *)
(* A configuration c has                                                       *)
(*   inp    the rewritings [kind "default", table, ignore] or [kind "psm", marks, sym]             *)
(*   defs   the lines of the character definition [lo, hi, cats]                                  *)
(*   dics   the dictionaries' entries, words the searchable ones [h, l, r, c, dic, idx]           *)
(*   matrix the connection costs                                                                  *)
(*   provs  the providers [kind "mecab", defs, entries] or [kind "simple", l, r, c, pos]           *)
(*   joins  the joiners [kind "numeric", normalize] or [kind "katakana", min, pos]                 *)
EXTENDS Joining, SequencesExt
N == INSTANCE Normalize
O == INSTANCE Oov
L == INSTANCE Lattice
CC == INSTANCE CharCategory

\* ------------------------------------------------ rewriting
RECURSIVE Scanned(_, _, _, _, _)
Scanned(text, i, segs, stage, chars) ==
  IF i > Len(text) THEN segs
  ELSE LET r == IF stage.kind = "default" THEN N!DefaultScan(text, i, stage, chars) ELSE N!ProlongedScan(text, i, stage)
       IN Scanned(text, r.next, segs \o r.seg, stage, chars)
RECURSIVE Rewritten(_, _, _)
Rewritten(st, stages, chars) ==
  IF stages = <<>> THEN st
  ELSE Rewritten(N!ApplySegs(st, Scanned(st.text, 1, <<>>, Head(stages), chars)), Tail(stages), chars)

\* ------------------------------------------------ candidates
\* v: the rewritten text's view [text, cats, starts, runs]
View(c, st) == LET cats == [k \in DOMAIN st.text |-> CC!Categories(c.defs, st.text[k])]
               IN [text |-> st.text, map |-> st.map, cats |-> cats, starts |-> Starts(st.text), runs |-> Runs(cats)]
Node(w, b) == [b |-> b, e |-> w.e, l |-> w.l, r |-> w.r, c |-> w.c, dic |-> -1, idx |-> 0, oov |-> TRUE, pos |-> w.pos]
Offers(p, v, i, others) ==
  LET b == v.starts[i]
      os == IF p.kind = "simple" THEN O!SimpleOffers(p, v.cats, v.starts, b, others)
            ELSE O!CategoryOffers(p.defs, p.entries, v.cats, v.runs, v.starts, b, others)
  IN {Node(x.w, b) : x \in os}
RECURSIVE AllOffers(_, _, _, _)
AllOffers(ps, v, i, others) ==
  IF ps = <<>> THEN {}
  ELSE LET ns == Offers(Head(ps), v, i, others) IN ns \cup AllOffers(Tail(ps), v, i, others \/ ns # {})
WordsAt(c, v, i) ==
  LET ws == L!DictWords(c.words, 1, v.text, v.cats, v.starts, i)
  IN {[b |-> ws[k].b, e |-> ws[k].e, l |-> ws[k].l, r |-> ws[k].r, c |-> ws[k].c, dic |-> ws[k].dic, idx |-> ws[k].idx, oov |-> FALSE, pos |-> <<>>] : k \in DOMAIN ws}
NodesAt(c, v, i) ==
  LET ws == WordsAt(c, v, i)
  IN ws \cup (IF "NOOOVBOW" \notin v.cats[i] THEN AllOffers(c.provs, v, i, ws # {})
              ELSE IF ws # {} THEN {} ELSE Offers(c.provs[Len(c.provs)], v, i, FALSE))
\* [nodes, ends, stuck]
RECURSIVE Collect(_, _, _, _)
Collect(c, v, i, lat) ==
  IF i > Len(v.text) \/ lat.stuck THEN lat
  ELSE IF ~StartsWord(v.cats, i) \/ v.starts[i] \notin lat.ends THEN Collect(c, v, i + 1, lat)
  ELSE LET ns == NodesAt(c, v, i)
       IN Collect(c, v, i + 1, [nodes |-> lat.nodes \cup ns, ends |-> lat.ends \cup {x.e : x \in ns}, stuck |-> ns = {}])
LatticeOf(c, v) == Collect(c, v, 1, [nodes |-> {}, ends |-> {0}, stuck |-> FALSE])

\* ------------------------------------------------ all cheapest paths
CheapestPaths(nodes, matrix, n) ==
  LET ns == SetToSeq(nodes)
      D  == L!Distances(ns, matrix, n)
      RECURSIVE To(_, _)
      To(p, s) == IF p = 0 THEN {<<>>}
                  ELSE UNION {UNION {{Append(q, x) : q \in To(x.b, t)} :
                                t \in {u \in D[x.b] : /\ L!Conn(matrix, u[1], x.l) # L!Inhibited
                                                      /\ u[2] + L!Conn(matrix, u[1], x.l) + x.c = s[2]}} :
                              x \in {y \in nodes : y.e = p /\ y.r = s[1]}}
      last == {s \in D[n] : L!Conn(matrix, s[1], 0) # L!Inhibited}
      least == L!MinOf({s[2] + L!Conn(matrix, s[1], 0) : s \in last})
  IN IF last = {} THEN {} ELSE UNION {To(n, s) : s \in {x \in last : x[2] + L!Conn(matrix, x[1], 0) = least}}

\* ------------------------------------------------ how many there are, counted up to Enough
Enough == 400
RECURSIVE Sum(_, _, _)
Sum(W, S, acc) == IF S = {} \/ acc >= Enough THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Sum(W, S \ {x}, acc + W[x[1].b][x[2]])
RECURSIVE Ways(_, _, _, _, _)
Ways(nodes, matrix, D, ends, W) ==
  IF ends = {} THEN W
  ELSE LET q == L!MinOf(ends)
           Into(s) == UNION {{<<x, u[1]>> : u \in {t \in D[x.b] : L!Conn(matrix, t[1], x.l) # L!Inhibited /\ t[2] + L!Conn(matrix, t[1], x.l) + x.c = s[2]}} :
                             x \in {y \in nodes : y.e = q /\ y.r = s[1]}}
       IN Ways(nodes, matrix, D, ends \ {q}, [W EXCEPT ![q] = [r \in {s[1] : s \in D[q]} |-> Sum(W, Into(CHOOSE s \in D[q] : s[1] = r), 0)]])
TooMany(nodes, matrix, n) ==
  LET ns == SetToSeq(nodes)
      D  == L!Distances(ns, matrix, n)
      W  == Ways(nodes, matrix, D, {x.e : x \in nodes}, [p \in 0..n |-> [r \in {0} |-> 1]])
  IN \E s \in D[n] : W[n][s[1]] >= Enough

\* ------------------------------------------------ tokens
Entry(c, d, i) == c.dics[d + 1][i + 1]
Word(c, d, i, b, e) ==
  LET x == Entry(c, d, i)
  IN [b |-> b, e |-> e, surf |-> x.surf, norm |-> x.norm, read |-> x.read, df |-> IF x.df < 0 THEN x.surf ELSE Entry(c, d, x.df).surf,
      pos |-> x.pos, oov |-> FALSE, dic |-> d, idx |-> i, units |-> 0]
Token(c, v, x) ==
  IF x.dic >= 0 THEN Word(c, x.dic, x.idx, x.b, x.e)
  ELSE LET s == Substring(v.text, v.starts, x.b, x.e)
       IN [b |-> x.b, e |-> x.e, surf |-> s, norm |-> s, read |-> <<>>, df |-> s, pos |-> x.pos, oov |-> TRUE, dic |-> -1, idx |-> 0, units |-> 0]
Joined(c, v, nodes, j, path) ==
  IF j.kind = "numeric" THEN {NumeralsJoined(path, v.starts, v.cats, v.runs, j.normalize)}
  ELSE LET Cands(b, e) == {<<x.c, Token(c, v, x)>> : x \in {y \in nodes : y.b = b /\ y.e = e}}
       IN KatakanaJoined(path, v.starts, v.cats, v.runs, j.min, j.pos, Cands)
RECURSIVE AllJoined(_, _, _, _, _)
AllJoined(c, v, nodes, joins, paths) ==
  IF joins = <<>> THEN paths
  ELSE AllJoined(c, v, nodes, Tail(joins), UNION {Joined(c, v, nodes, Head(joins), p) : p \in paths})
UnitsOf(c, t, mode) == IF t.dic < 0 \/ mode = "C" THEN <<>> ELSE IF mode = "A" THEN Entry(c, t.dic, t.idx).A ELSE Entry(c, t.dic, t.idx).B
RECURSIVE EndToEnd(_, _, _)
EndToEnd(c, us, b) == IF us = <<>> THEN <<>>
                      ELSE LET e == b + Entry(c, us[1][1], us[1][2]).hl
                           IN <<Word(c, us[1][1], us[1][2], b, e)>> \o EndToEnd(c, Tail(us), e)
RECURSIVE Split(_, _, _)
Split(c, path, mode) ==
  IF path = <<>> THEN <<>>
  ELSE LET us == UnitsOf(c, path[1], mode)
       IN (IF Len(us) < 2 THEN <<path[1]>> ELSE EndToEnd(c, us, path[1].b)) \o Split(c, Tail(path), mode)
\* what is reported of a token
Report(c, v, orig, t) ==
  LET b == v.map[CharAt(v.starts, t.b)]
      e == v.map[CharAt(v.starts, t.e)]
  IN [b |-> b, e |-> e, s |-> SubSeq(orig, b + 1, e), pos |-> t.pos, norm |-> t.norm, df |-> t.df, read |-> t.read, oov |-> t.oov, dic |-> t.dic,
      syn |-> IF t.dic < 0 THEN <<>> ELSE Entry(c, t.dic, t.idx).syn]
Reports(c, v, orig, path, mode) == LET ts == Split(c, path, mode) IN [k \in DOMAIN ts |-> Report(c, v, orig, ts[k])]

\* the possible paths after joining, none if the text cannot be tokenized; they are not listed where there are too many
Analysis(c, orig, chars) ==
  LET st == Rewritten(N!EditInit(orig), c.inp, chars)
      v  == View(c, st)
      n  == v.starts[Len(v.starts)]
      lat == LatticeOf(c, v)
      many == ~lat.stuck /\ TooMany(lat.nodes, c.matrix, n)
      paths == IF lat.stuck \/ many THEN {} ELSE CheapestPaths(lat.nodes, c.matrix, n)
  IN [view |-> v, lat |-> lat, many |-> many,
      paths |-> AllJoined(c, v, lat.nodes, c.joins, {[k \in DOMAIN p |-> Token(c, v, p[k])] : p \in paths})]
=============================================================================
