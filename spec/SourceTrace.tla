---------------------------- MODULE SourceTrace -----------------------------
(* Recorded builds. A run: sys (the system dictionary a user dictionary is     *)
(* built against, n = -1 if none), files, refused, exc, entries, table.        *)
EXTENDS ConnMatrix, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
ASPECT == IOEnv.ASPECT          \* "entries" or "refusals"
VARIABLES ci, verdict
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ verdict = "run"
JudgeSource(o) ==
  LET rows == TLCEval(Read(o.files))
      keys == TLCEval(Keys(rows))
      why == TLCEval([i \in DOMAIN rows |-> Refusal(rows[i], rows, keys, o.sys)])
      bad == {i \in DOMAIN rows : why[i] # ""}
  IN IF o.exc \notin {"", "Exception"} THEN "build: " \o o.exc
     ELSE IF ASPECT = "refusals"
     THEN IF bad # {} /\ ~o.refused THEN "compiled a source it must refuse: " \o (LET i == CHOOSE x \in bad : TRUE IN why[i] \o " in row " \o ToString(i))
          ELSE IF bad = {} /\ o.refused THEN "refused a valid source"
          ELSE "ok"
     ELSE IF bad # {} \/ o.refused THEN "ok"
     ELSE IF o.rexc # "" THEN "reading back: " \o o.rexc
     ELSE IF o.table # PosTable(rows, o.sys) THEN "table of parts of speech"
     ELSE IF Len(o.entries) # Len(rows) THEN "number of entries"
     ELSE LET d == {i \in DOMAIN rows : Difference(rows[i], o.entries[i], rows, keys, o.sys) # ""}
          IN IF d = {} THEN "ok" ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y
                                      IN Difference(rows[i], o.entries[i], rows, keys, o.sys) \o " of row " \o ToString(i)
(* Long strings, given and read back as runs <<code point, number>>: the limit is *)
(* 32767, in bytes of UTF-8 for headwords and in UTF-16 units for everything else. *)
RunSum(rle, bytes) == FoldLeft(LAMBDA n, r : n + r[2] * (IF bytes THEN Utf8(r[1]) ELSE Utf16(r[1])), 0, rle)
JudgeLong(o) ==
  LET fits == RunSum(o.rle, o.field = "headword") <= 32767
  IN IF o.exc \notin {"", "Exception"} THEN "build: " \o o.exc
     ELSE IF ASPECT = "refusals"
     THEN IF fits = ~o.refused THEN "ok" ELSE IF o.refused THEN "refused a string within the limit" ELSE "compiled a string that is too long"
     ELSE IF o.refused \/ ~fits THEN "ok"
     ELSE IF o.rexc # "" THEN "reading back: " \o o.rexc
     ELSE IF o.field = "headword" THEN IF o.hlen = RunSum(o.rle, TRUE) THEN "ok" ELSE "length of a long headword"
     ELSE IF o.back # o.rle THEN "long " \o o.field
     ELSE IF o.rest # "" THEN "beside a long " \o o.field \o ": " \o o.rest
     ELSE "ok"
(* Connection matrices: a header of two non-negative sizes, then lines with a   *)
(* pair within them and its cost; comments and shorter lines do not count.      *)
LineFits(s, l, r) == LET f == Fields(s)
                     IN \/ Len(f) < 3 \/ f[1][1] = 35
                        \/ /\ Len(f) = 3 /\ \A i \in 1..3 : Short(Num(f[i]))
                           /\ IntOf(f[1]) \in 0..(l - 1) /\ IntOf(f[2]) \in 0..(r - 1)
JudgeHeader(o) ==
  LET f == SelectSeq(Parts(o.header, 32), LAMBDA s : s # <<>>)
      header == Len(f) = 2 /\ \A i \in DOMAIN f : Short(Num(f[i])) /\ ~Num(f[i]).neg
      good == header /\ \A i \in DOMAIN o.lines : LineFits(o.lines[i], IntOf(f[1]), IntOf(f[2]))
  IN IF ASPECT # "refusals" THEN "ok"
     ELSE IF good = ~o.refused THEN "ok" ELSE IF good THEN "refused a valid matrix: " \o ToString(o.lines) ELSE "compiled a matrix without a valid header or with a line that is none of it: " \o ToString(o.lines)
Judge1(o) == CASE o.kind = "source" -> JudgeSource(o) [] o.kind = "long" -> JudgeLong(o) [] OTHER -> JudgeHeader(o)
Judge == LET bad == {k \in DOMAIN C.runs : Judge1(C.runs[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
              IN Judge1(C.runs[k]) \o " (run " \o ToString(k) \o ")"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
