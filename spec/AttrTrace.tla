----------------------------- MODULE AttrTrace ------------------------------
(* What tokens report against the sources of the dictionaries they come from.  *)
(* dics[d+1][i+1]: entry i of dictionary d as its source states it; tokens as  *)
(* reported; lookups of entries by surface, part-of-speech id and reading.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
SetOf(s) == {s[k] : k \in DOMAIN s}
\* a big dictionary is described by the entries that introduce parts of speech and by some of its entries, by their number
Far == C.kind = "far"
Known(d, i) == IF Far THEN d = 0 /\ \E k \in DOMAIN C.some : C.some[k].i = i ELSE d \in 0..(Len(C.dics) - 1) /\ i \in 0..(Len(C.dics[d + 1]) - 1)
Entry(d, i) == IF Far THEN C.some[CHOOSE k \in DOMAIN C.some : C.some[k].i = i].e ELSE C.dics[d + 1][i + 1]
Form(e, d) == IF e.df < 0 THEN e.surf ELSE Entry(d, e.df).surf

(* Part-of-speech numbers: the system's own in order of first appearance, then  *)
(* those each user dictionary introduces, dictionary by dictionary.             *)
RECURSIVE Seen(_, _, _)
Seen(es, base, acc) == IF es = <<>> THEN acc
                       ELSE Seen(Tail(es), base, IF Head(es).pos \in SetOf(base) \union SetOf(acc) THEN acc ELSE Append(acc, Head(es).pos))
SystemPos == Seen(C.dics[1], <<>>, <<>>)
OwnPos(d) == IF d = 0 THEN SystemPos ELSE Seen(C.dics[d + 1], SystemPos, <<>>)
RECURSIVE AllPos(_)
AllPos(d) == IF d = 0 THEN SystemPos ELSE AllPos(d - 1) \o OwnPos(d)

JudgeToken(o, t) ==
  IF t.dic < 0 THEN "ok"
  ELSE IF ~Known(t.dic, t.idx) THEN "a token of an entry that does not exist"
  ELSE LET e == Entry(t.dic, t.idx) IN
    IF t.wid # <<t.dic, t.idx>> THEN "word id and dictionary id disagree"
    ELSE IF t.oov THEN "a dictionary word reported as out of vocabulary"
    ELSE IF t.pos # e.pos \/ t.pos2 # e.pos THEN "part of speech"
    ELSE IF t.pid < 0 \/ t.pid >= Len(AllPos(Len(C.dics) - 1)) \/ AllPos(Len(C.dics) - 1)[t.pid + 1] # e.pos THEN "part-of-speech id"
    ELSE IF t.norm # e.norm THEN "normalized form"
    ELSE IF t.read # e.read THEN "reading"
    ELSE IF t.df # Form(e, t.dic) THEN "dictionary form"
    ELSE IF t.syn # e.syn THEN "synonym groups"
    ELSE IF t.w # e.W THEN "word structure"
    ELSE IF t.a # e.A THEN "A units"
    ELSE IF t.b # e.B THEN "B units"
    ELSE IF o.plain /\ ~t.unit /\ t.h # e.h THEN "a token whose headword is not the text it covers"
    ELSE "ok"
JudgeText(o) ==
  IF o.err # "" THEN "failed: " \o o.err
  ELSE LET bad == {k \in DOMAIN o.toks : JudgeToken(o, o.toks[k]) # "ok"}
       IN IF bad = {} THEN "ok" ELSE JudgeToken(o, o.toks[CHOOSE k \in bad : TRUE])

\* q: surface, pos id, reading, and the answer <<dictionary, index>> or <<-1, 0>>
Strings(q, d, i) == Entry(d, i).surf = q.surf /\ Entry(d, i).read = q.read
JudgeQuery(q) ==
  LET pos == AllPos(Len(C.dics) - 1)
      name == IF q.pid \in 0..(Len(pos) - 1) THEN pos[q.pid + 1] ELSE <<>>
      ids == {<<d, i>> \in (0..(Len(C.dics) - 1)) \X (0..100) : Known(d, i) /\ Strings(q, d, i) /\ Entry(d, i).pos = name}
      \* the entries whose part of speech has this very number
      own(d) == q.pid < Len(SystemPos) \/ (d > 0 /\ q.pid >= Len(AllPos(d - 1)) /\ q.pid < Len(AllPos(d)))
  IN IF q.exc # "" THEN "finding an entry: " \o q.exc
     ELSE IF q.got[1] >= 0 THEN IF q.got \in ids THEN "ok" ELSE "another entry is found than the one asked for"
     ELSE IF \E x \in ids : own(x[1]) THEN "an existing entry is not found" ELSE "ok"
(* Entries by their number over all dictionaries, with what the search uses of them. *)
JudgeWord(t) ==
  LET a == JudgeToken([plain |-> FALSE], t)
  IN IF a # "ok" THEN "entry: " \o a
     ELSE IF t.dic # t.wid[1] THEN "dictionary of an entry"
     ELSE LET e == Entry(t.dic, t.idx) IN
       IF t.l # e.l \/ t.r # e.r THEN "connection ids of an entry" ELSE IF t.c # e.c THEN "cost of an entry" ELSE "ok"
RECURSIVE Total(_)
Total(d) == IF d = 0 THEN 0 ELSE Len(C.dics[d]) + Total(d - 1)
Judge ==
  IF C.kind = "limit" THEN IF (C.users <= 15) = (C.err = "") THEN "ok" ELSE ToString(C.users) \o " user dictionaries: " \o C.err
  ELSE IF C.exc # "" THEN "opening: " \o C.exc
  ELSE IF C.pos # AllPos(Len(C.dics) - 1) THEN "numbers of the parts of speech"
  ELSE IF C.size # (IF Far THEN C.entries ELSE Total(Len(C.dics))) THEN "number of entries"
  ELSE IF \E k \in DOMAIN C.words : JudgeWord(C.words[k]) # "ok" THEN JudgeWord(C.words[CHOOSE k \in DOMAIN C.words : JudgeWord(C.words[k]) # "ok"])
  ELSE LET bt == {k \in DOMAIN C.runs : JudgeText(C.runs[k]) # "ok"}
           bq == {k \in DOMAIN C.queries : JudgeQuery(C.queries[k]) # "ok"}
       IN IF bt # {} THEN JudgeText(C.runs[CHOOSE k \in bt : TRUE]) ELSE IF bq # {} THEN JudgeQuery(C.queries[CHOOSE k \in bq : TRUE]) ELSE "ok"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
