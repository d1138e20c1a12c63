----------------------------- MODULE FileTrace ------------------------------
(* Recorded openings of dictionary files, what was read from them, tokens of    *)
(* sets of files of all versions, and headers written.                          *)
EXTENDS DictFile, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"

JudgeOpen(o) == IF Opens(o.version, o.as) = o.opened THEN "ok"
                ELSE IF o.opened THEN "opened a file of another kind or version as " \o o.as ELSE "refused a " \o o.as \o " dictionary: " \o o.err

(* contents: the whole file as bytes, and what the code reads *)
JudgeContents(o) ==
  LET b == o.bytes
      v == Version(b)
      g == TLCEval(IF HasGrammar(v) THEN Grammar(b, HeaderSize) ELSE NoGrammar(HeaderSize))
      x == TLCEval(Lexicon(b, g.n))
      diff(i) == LET e == Entry(b, v, x, i) p == Params(b, x, i) got == o.entries[i + 1]
                 IN {f \in {"surf", "hlen", "pos", "norm", "read", "df", "dfid", "a", "b", "w", "syn"} : got[f] # e[f]} \union {f \in {"l", "r", "c"} : got[f] # p[f]}
      bad == {i \in 0..(x.size - 1) : diff(i) # {}}
  IN IF o.err # "" THEN "reading: " \o o.err
     ELSE IF o.version # v THEN "version"
     ELSE IF o.created # Created(b) THEN "creation time"
     ELSE IF o.description # Description(b) THEN "description"
     ELSE IF o.pos # g.pos THEN "parts of speech"
     ELSE IF \E l \in 1..g.L : \E r \in 1..g.R : o.matrix[l][r] # Cost(b, g, l - 1, r - 1) THEN "connection costs"
     ELSE IF Len(o.entries) # x.size THEN "number of entries"
     ELSE IF bad # {} THEN LET i == CHOOSE k \in bad : TRUE IN "entry " \o ToString(i) \o ": " \o ToString(diff(i))
     ELSE "ok"

(* tokens of a set: files[1] the system dictionary, then user dictionaries *)
JudgeSet(o) ==
  LET file(d) == o.files[d + 1]
      gr(d) == LET b == file(d) IN IF HasGrammar(Version(b)) THEN Grammar(b, HeaderSize) ELSE NoGrammar(HeaderSize)
      g0 == TLCEval(gr(0))
      name(d, p) == IF p < Len(g0.pos) THEN g0.pos[p + 1] ELSE gr(d).pos[p - Len(g0.pos) + 1]
      wrong(t) == LET b == file(t.dic) v == Version(b) e == Entry(b, v, Lexicon(b, gr(t.dic).n), t.idx)
                  IN {f \in {"norm", "read", "df", "syn"} : t[f] # e[f]} \union (IF t.pos = name(t.dic, e.pos) THEN {} ELSE {"pos"})
      bad == {k \in DOMAIN o.toks : wrong(o.toks[k]) # {}}
  IN IF o.err # "" THEN "opening or tokenizing: " \o o.err
     ELSE IF o.toks = <<>> THEN "no tokens"
     ELSE IF bad # {} THEN LET t == o.toks[CHOOSE k \in bad : TRUE] IN "token of dictionary " \o ToString(t.dic) \o ": " \o ToString(wrong(t))
     ELSE "ok"

(* a header written from a version, a time and a description of n bytes *)
JudgeHeader(o) ==
  IF Len(o.description) > DescriptionSize THEN IF o.refused THEN "ok" ELSE "a description that is too long was written"
  ELSE IF o.refused THEN "a description that fits was refused"
  ELSE IF Len(o.bytes) # HeaderSize \/ o.bytes # o.version \o o.created \o o.description \o [k \in 1..(DescriptionSize - Len(o.description)) |-> 0] THEN "header as written"
  ELSE IF o.back # [version |-> o.version, created |-> o.created, description |-> o.description] THEN "header as read"
  ELSE IF o.system # (o.version \in Systems) \/ o.user # (o.version \in Users) THEN "kind of the header"
  ELSE "ok"
Judge1(o) == CASE o.kind = "open" -> JudgeOpen(o) [] o.kind = "contents" -> JudgeContents(o) [] o.kind = "set" -> JudgeSet(o) [] o.kind = "header" -> JudgeHeader(o)
                [] OTHER -> "failed: " \o o.err
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
