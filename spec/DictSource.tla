----------------------------- MODULE DictSource -----------------------------
(* What a dictionary source says, and which sources say nothing that may be   *)
(* compiled. A source is a sequence of files, a file a sequence of rows, a row *)
(* a sequence of columns, a column a sequence of code points.                  *)
(* Numbers are kept as [neg, digits] because TLC's integers end at 2^31 - 1.   *)
EXTENDS Integers, Sequences, FiniteSets

Star == <<42>>
IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsDigit(c) == c >= 48 /\ c <= 57

(* ---------------------------------------------------------- Unicode escapes *)
(* \uXXXX and \u{X...}; -1 marks a code point that does not exist.             *)
RECURSIVE HexRun(_, _)
HexRun(s, i) == IF i <= Len(s) /\ IsHex(s[i]) THEN HexRun(s, i + 1) ELSE i
RECURSIVE HexNum(_, _, _, _)
HexNum(s, i, j, acc) == IF i >= j THEN acc ELSE HexNum(s, i + 1, j, IF acc > 1114111 THEN acc ELSE 16 * acc + HexVal(s[i]))
CodePoint(v) == IF v > 1114111 THEN -1 ELSE v
(* end (exclusive) of the escape that starts at i, or 0 *)
EscapeEnd(s, i) ==
  IF i + 2 > Len(s) \/ s[i] # 92 \/ s[i + 1] # 117 THEN 0
  ELSE IF s[i + 2] = 123
       THEN LET e == HexRun(s, i + 3) IN IF e > i + 3 /\ e <= Len(s) /\ s[e] = 125 THEN e + 1 ELSE 0
       ELSE IF HexRun(s, i + 2) >= i + 6 THEN i + 6 ELSE 0
(* escapes never overlap: each begins with the only backslash in it *)
Value(s, i, e) == CodePoint(IF s[i + 2] = 123 THEN HexNum(s, i + 3, e - 1, 0) ELSE HexNum(s, i + 2, e, 0))
Indices(s) == [i \in 1..Len(s) |-> i]
DecodeAll(s) ==
  LET starts == {i \in DOMAIN s : s[i] = 92 /\ EscapeEnd(s, i) # 0}
      kept == SelectSeq(Indices(s), LAMBDA i : \A j \in starts : i <= j \/ i >= EscapeEnd(s, j))
  IN [k \in DOMAIN kept |-> IF kept[k] \in starts THEN Value(s, kept[k], EscapeEnd(s, kept[k])) ELSE s[kept[k]]]
Decode(s) == IF \E i \in DOMAIN s : s[i] = 92 THEN DecodeAll(s) ELSE s
IsScalar(c) == c >= 0 /\ ~(c >= 55296 /\ c <= 57343)
AllScalars(s) == \A i \in DOMAIN s : IsScalar(s[i])

RECURSIVE Sum(_, _)
Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf16(c) == IF c < 65536 THEN 1 ELSE 2
Sum(s, bytes) == IF s = <<>> THEN 0 ELSE (IF bytes THEN Utf8(Head(s)) ELSE Utf16(Head(s))) + Sum(Tail(s), bytes)
ByteLen(s) == Sum(s, TRUE)

(* ------------------------------------------------------------------ numbers *)
NoNum == [ok |-> FALSE, neg |-> FALSE, d |-> <<>>]
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Num(s) ==
  LET sg == s # <<>> /\ s[1] \in {43, 45}
      d == IF sg THEN Tail(s) ELSE s
  IN IF d = <<>> \/ \E i \in DOMAIN d : ~IsDigit(d[i]) THEN NoNum
     ELSE LET z == Strip(d) IN [ok |-> TRUE, neg |-> sg /\ s[1] = 45 /\ z # <<48>>, d |-> z]
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
MagLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b)
S32767 == <<51, 50, 55, 54, 55>>
S32768 == <<51, 50, 55, 54, 56>>
S2147483647 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
S2147483648 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Short(n) == n.ok /\ (IF n.neg THEN MagLeq(n.d, S32768) ELSE MagLeq(n.d, S32767))
Int32(n) == n.ok /\ (IF n.neg THEN MagLeq(n.d, S2147483648) ELSE MagLeq(n.d, S2147483647))
RECURSIVE ToInt(_, _)
ToInt(d, acc) == IF d = <<>> THEN acc ELSE ToInt(Tail(d), 10 * acc + d[1] - 48)
(* the value of a number that is less than the bound, else -1 *)
Below(n, bound) == IF ~n.ok \/ n.neg \/ Len(n.d) > 8 THEN -1 ELSE LET v == ToInt(n.d, 0) IN IF v < bound THEN v ELSE -1
MinusOne(n) == n.ok /\ n.neg /\ n.d = <<49>>

Parts(s, c) ==
  LET p == SelectSeq(Indices(s), LAMBDA i : s[i] = c)
      m == Len(p)
  IN [k \in 1..(m + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, IF k > m THEN Len(s) ELSE p[k] - 1)]

RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE fs[1] \o Flat(Tail(fs))

(* ------------------------------------------------------------------ entries *)
(* sys: [n |-> number of entries, pos |-> parts of speech, keys |-> sequence of *)
(* [surf, pos, read]] of the system dictionary, n = -1 when building one.       *)
IsRef(u) == LET d == IF u # <<>> /\ u[1] = 85 THEN Tail(u) ELSE u IN d # <<>> /\ \A i \in DOMAIN d : IsDigit(d[i])

(* rows are read once: every column decoded but the unit lists, whose fields are decoded one by one *)
ReadRow(r) == [k \in DOMAIN r |-> IF k \in 16..18 THEN r[k] ELSE Decode(r[k])]
Read(files) == LET rows == Flat(files) IN [i \in DOMAIN rows |-> ReadRow(rows[i])]
(* the word an entry may be named by *)
NoKey == [surf |-> <<>>, pos |-> <<>>, read |-> <<>>]
KeyOf(r) == IF Len(r) < 18 THEN NoKey ELSE [surf |-> r[5], pos |-> SubSeq(r, 6, 11), read |-> r[12]]
Keys(rows) == [i \in DOMAIN rows |-> KeyOf(rows[i])]
UserKind(sys) == sys.n >= 0

(* The set of [dic, idx] a unit string may denote (dic 0 the system dictionary, *)
(* 1 the dictionary being built when that is a user dictionary).                *)
Denotes(u, rows, keys, sys) ==
  IF IsRef(u)
  THEN LET n == Num(IF u[1] = 85 THEN Tail(u) ELSE u)
           own == ~UserKind(sys) \/ u[1] = 85
           v == Below(n, IF own THEN Len(rows) ELSE sys.n)
       IN IF v < 0 THEN {} ELSE {<<IF own /\ UserKind(sys) THEN 1 ELSE 0, v>>}
  ELSE LET f == Parts(u, 44)
       IN IF Len(f) < 8 THEN {}
          ELSE LET key == [surf |-> Decode(f[1]), pos |-> [k \in 1..6 |-> Decode(f[1 + k])], read |-> Decode(f[8])]
                   own == {<<IF UserKind(sys) THEN 1 ELSE 0, i - 1>> : i \in {j \in DOMAIN rows : keys[j] = key}}
                   old == IF UserKind(sys) THEN {<<0, i - 1>> : i \in {j \in DOMAIN sys.keys : sys.keys[j] = key}} ELSE {}
               IN own \union old

BadUnits(s, rows, keys, sys) == s # Star /\ LET us == Parts(s, 47) IN Len(us) > 127 \/ \E i \in DOMAIN us : Denotes(us[i], rows, keys, sys) = {}
BadSyn(s) == s # Star /\ LET us == Parts(s, 47) IN Len(us) > 127 \/ \E i \in DOMAIN us : ~Int32(Num(us[i]))
TextCols == {1, 5, 6, 7, 8, 9, 10, 11, 12, 13}

(* why a row may not be compiled, "" if it may *)
Refusal(r, rows, keys, sys) ==
  IF Len(r) < 18 THEN "too few columns"
  ELSE IF \E k \in TextCols : ~AllScalars(r[k]) THEN "no such character"
  ELSE IF \E k \in DOMAIN r : \E i \in DOMAIN r[k] : r[k][i] = -1 THEN "no such character"
  ELSE IF r[1] = <<>> THEN "empty headword"
  ELSE IF \E i \in DOMAIN r[1] : r[1][i] = 0 /\ ~MinusOne(Num(r[2])) THEN "NUL in an indexed headword"
  ELSE IF \E k \in 2..4 : ~Short(Num(r[k])) THEN "number"
  ELSE IF \E k \in 6..11 : \E i \in DOMAIN r[k] : r[k][i] = 44 THEN "part of speech"
  ELSE IF r[14] # Star /\ ~Num(r[14]).ok THEN "dictionary form"
  ELSE IF r[14] # Star /\ ~Num(r[14]).neg /\ Below(Num(r[14]), Len(rows)) < 0 THEN "dictionary form out of range"
  ELSE IF r[14] # Star /\ ~Int32(Num(r[14])) THEN "dictionary form out of range"
  ELSE IF r[15] = <<65>> /\ (r[16] # Star \/ r[17] # Star) THEN "units in mode A"
  ELSE IF \E k \in 16..18 : BadUnits(r[k], rows, keys, sys) THEN "units"
  ELSE IF Len(r) > 18 /\ BadSyn(r[19]) THEN "synonyms"
  ELSE ""

RECURSIVE FirstSeen(_, _)
FirstSeen(seq, acc) == IF seq = <<>> THEN acc
                       ELSE FirstSeen(Tail(seq), IF \E i \in DOMAIN acc : acc[i] = seq[1] THEN acc ELSE Append(acc, seq[1]))
PosOf(r) == SubSeq(r, 6, 11)
(* the part-of-speech table a source gives *)
PosTable(rows, sys) == LET all == [i \in DOMAIN rows |-> PosOf(rows[i])]
                       IN FirstSeen(SelectSeq(all, LAMBDA p : \A i \in DOMAIN sys.pos : sys.pos[i] # p), <<>>)

Default(s, d) == IF s = <<>> THEN d ELSE s
Surface(r) == r[5]
DicForm(r, rows) == IF r[14] = Star \/ Num(r[14]).neg THEN Surface(r) ELSE Surface(rows[1 + Below(Num(r[14]), Len(rows))])
Units(s, rows, keys, sys) == IF s = Star THEN <<>> ELSE LET us == Parts(s, 47) IN [i \in DOMAIN us |-> Denotes(us[i], rows, keys, sys)]
Synonyms(r) == IF Len(r) < 19 \/ r[19] = Star THEN <<>> ELSE LET us == Parts(r[19], 47) IN [i \in DOMAIN us |-> Num(us[i])]

(* what differs between row r and the entry e read back *)
UnitsAgree(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : got[i] \in want[i]
SameNum(n, text) == LET m == Num(text) IN m.ok /\ m.neg = n.neg /\ m.d = n.d
Difference(r, e, rows, keys, sys) ==
  IF e.surf # Surface(r) THEN "surface"
  ELSE IF e.hlen # ByteLen(r[1]) THEN "headword length"
  ELSE IF ~SameNum(Num(r[2]), e.l) THEN "left id"
  ELSE IF ~SameNum(Num(r[3]), e.r) THEN "right id"
  ELSE IF ~SameNum(Num(r[4]), e.c) THEN "cost"
  ELSE IF e.pos # PosOf(r) THEN "part of speech"
  ELSE IF e.read # Default(r[12], Surface(r)) THEN "reading"
  ELSE IF e.norm # Default(r[13], Surface(r)) THEN "normalized form"
  ELSE IF e.df # DicForm(r, rows) THEN "dictionary form"
  ELSE IF ~UnitsAgree(Units(r[16], rows, keys, sys), e.a) THEN "A units"
  ELSE IF ~UnitsAgree(Units(r[17], rows, keys, sys), e.b) THEN "B units"
  ELSE IF ~UnitsAgree(Units(r[18], rows, keys, sys), e.w) THEN "word structure"
  ELSE IF Len(e.syn) # Len(Synonyms(r)) \/ \E i \in DOMAIN e.syn : ~SameNum(Synonyms(r)[i], e.syn[i]) THEN "synonym groups"
  ELSE ""
=============================================================================
