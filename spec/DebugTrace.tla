----------------------------- MODULE DebugTrace -----------------------------
(* What debug output shows of an analysis: the rewritten text, the lattice     *)
(* from its end to its begin, the path before rewriting and the one after it.  *)
EXTENDS Pipeline, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Cfg == C.conf

\* a candidate as its line shows it
Shown(v, x) == LET t == Token(Cfg, v, x)
               IN [b |-> x.b, e |-> x.e, surf |-> t.surf, pos |-> t.pos, l |-> x.l, r |-> x.r, c |-> x.c, word |-> IF x.dic < 0 THEN <<>> ELSE <<x.dic, x.idx>>]
Line(y, oov) == [b |-> y.b, e |-> y.e, surf |-> y.surf, pos |-> y.pos, l |-> y.l, r |-> y.r, c |-> y.c, word |-> IF oov THEN <<>> ELSE <<y.dic, y.idx>>]
\* the costs of connecting to what ends at b, in the order of the lines
Costs(ls, b, l) == LET at == SelectSeq(ls, LAMBDA y : y.e = b)
                   IN IF b = 0 THEN <<L!Conn(Cfg.matrix, 0, l)>> ELSE [k \in DOMAIN at |-> L!Conn(Cfg.matrix, at[k].r, l)]
Border == <<"BOS/EOS">>
LatticeShown(o, a) ==
  LET v == a.view
      n == v.starts[Len(v.starts)]
      ls == o.lattice
      N1 == Len(ls)
      inner == SubSeq(ls, 2, N1 - 1)
      known == {Shown(v, x) : x \in a.lat.nodes}
      Is(y, s) == s = Line(y, s.word = <<>>)
  IN IF N1 < 2 THEN "too few lines for the lattice"
     ELSE IF \E k \in 1..N1 : ls[k].n # k THEN "numbers of the lines"
     ELSE IF ~(ls[1].b = n /\ ls[1].e = n /\ ls[1].pos = Border /\ <<ls[1].l, ls[1].r, ls[1].c>> = <<0, 0, 0>> /\ ls[1].conn = Costs(inner, n, 0)) THEN "end of the text"
     ELSE IF ~(ls[N1].b = 0 /\ ls[N1].e = 0 /\ ls[N1].pos = Border /\ <<ls[N1].l, ls[N1].r, ls[N1].c>> = <<0, 0, 0>>) THEN "begin of the text"
     ELSE IF \E k \in 2..(N1 - 1) : ls[k].e > ls[k - 1].e THEN "order of the lines"
     ELSE IF \E k \in DOMAIN inner : ~\E s \in known : Is(inner[k], s) THEN "a line that shows no candidate"
     ELSE IF \E s \in known : ~\E k \in DOMAIN inner : Is(inner[k], s) THEN "a candidate is not shown"
     ELSE IF \E k \in DOMAIN inner : inner[k].conn # Costs(inner, inner[k].b, inner[k].l) THEN "connection costs"
     ELSE "ok"
PathLine(y, t) == y.b = t.b /\ y.e = t.e /\ y.surf = t.surf /\ (t.dic >= 0 => (y.dic = t.dic /\ y.idx = t.idx))
PathShown(ys, ts) == Len(ys) = Len(ts) /\ \A k \in DOMAIN ys : ys[k].n = k - 1 /\ PathLine(ys[k], ts[k])
Judge1(o) ==
  IF o.text = <<>> THEN IF o.sections = 0 /\ o.err = "" THEN "ok" ELSE "empty text"
  ELSE
  LET a == Analysis(Cfg, o.text, o.chars)
      v == a.view
      n == v.starts[Len(v.starts)]
      Tokens(p) == [k \in DOMAIN p |-> Token(Cfg, v, p[k])]
      plain == IF a.lat.stuck THEN {} ELSE IF a.many THEN {} ELSE CheapestPaths(a.lat.nodes, Cfg.matrix, n)
      matching == {p \in plain : /\ PathShown(o.before, Tokens(p))
                                 /\ \A k \in DOMAIN p : o.before[k].l = p[k].l /\ o.before[k].r = p[k].r /\ o.before[k].c = p[k].c}
      after == UNION {AllJoined(Cfg, v, a.lat.nodes, Cfg.joins, {Tokens(p)}) : p \in matching}
  IN IF o.format # "" THEN "unreadable: " \o o.format
     ELSE IF o.err # "" /\ a.paths # {} THEN "failed: " \o o.err
     ELSE IF o.err = "" /\ o.plain # o.toks THEN "other tokens than without debug output"
     ELSE IF o.again # o.plain THEN "other tokens after debug output"
     ELSE IF o.late # 0 THEN "debug output nobody asked for"
     ELSE IF o.input # v.text THEN "the rewritten text"
     ELSE IF a.lat.stuck THEN "ok"
     ELSE IF LatticeShown(o, a) # "ok" THEN LatticeShown(o, a)
     ELSE IF plain = {} THEN "ok"
     ELSE IF matching = {} THEN "the path before rewriting"
     ELSE IF ~\E q \in after : PathShown(o.after, Split(Cfg, q, o.mode)) THEN "the path after rewriting"
     ELSE "ok"
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ": " \o ToString(C.runs[k].text) \o ")"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
