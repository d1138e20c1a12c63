------------------------------ MODULE DictFile ------------------------------
(* The binary dictionary file, by version. A file is a sequence of bytes;       *)
(* positions count from 0. Versions and creation times are sequences of eight   *)
(* bytes, least significant first.                                              *)
EXTENDS Integers, Sequences, FiniteSets
System1 == <<231, 17, 209, 139, 241, 211, 102, 115>>
System2 == <<52, 68, 57, 146, 26, 1, 159, 206>>
User1   == <<231, 17, 210, 139, 24, 49, 15, 165>>
User2   == <<104, 216, 104, 1, 169, 181, 222, 159>>
User3   == <<176, 79, 246, 111, 117, 17, 152, 202>>
Systems == {System1, System2}
Users == {User1, User2, User3}
Opens(version, kind) == version \in (IF kind = "system" THEN Systems ELSE Users)
HasGrammar(v) == v # User1
HasSynonyms(v) == v \in {System2, User3}
DescriptionSize == 256
HeaderSize == 16 + DescriptionSize

At(b, p) == b[p + 1]
U16(b, p) == At(b, p) + 256 * At(b, p + 1)
S16(b, p) == LET x == U16(b, p) IN IF x >= 32768 THEN x - 65536 ELSE x
U32(b, p) == U16(b, p) + 65536 * U16(b, p + 2)              \* below 2^31
S32(b, p) == U16(b, p) + 65536 * S16(b, p + 2)

Version(b) == SubSeq(b, 1, 8)
Created(b) == SubSeq(b, 9, 16)
Description(b) == LET z == {k \in 1..DescriptionSize : b[16 + k] = 0}
                      n == IF z = {} THEN DescriptionSize ELSE (CHOOSE k \in z : \A j \in z : k <= j) - 1
                  IN SubSeq(b, 17, 16 + n)

(* Strings: a length of one or two bytes and that many UTF-16 units. *)
Length(b, p) == IF At(b, p) < 128 THEN [v |-> At(b, p), n |-> p + 1] ELSE [v |-> (At(b, p) - 128) * 256 + At(b, p + 1), n |-> p + 2]
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
CodePoints(u) == LET keep == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : ~(i > 1 /\ Low(u[i]) /\ High(u[i - 1])))
                 IN [k \in DOMAIN keep |-> LET i == keep[k] IN
                      IF High(u[i]) /\ i < Len(u) /\ Low(u[i + 1]) THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320) ELSE u[i]]
String(b, p) == LET l == Length(b, p) IN [v |-> CodePoints([k \in 1..l.v |-> U16(b, l.n + 2 * (k - 1))]), n |-> l.n + 2 * l.v]
RECURSIVE Strings(_, _, _)
Strings(b, p, count) == IF count = 0 THEN [v |-> <<>>, n |-> p]
                        ELSE LET s == String(b, p) r == Strings(b, s.n, count - 1) IN [v |-> <<s.v>> \o r.v, n |-> r.n]
Ints(b, p) == [v |-> [k \in 1..At(b, p) |-> S32(b, p + 1 + 4 * (k - 1))], n |-> p + 1 + 4 * At(b, p)]

(* Grammar: number of parts of speech, their six strings each, matrix. *)
NoGrammar(p) == [pos |-> <<>>, L |-> 0, R |-> 0, matrix |-> p, n |-> p]
Grammar(b, p) == LET c == S16(b, p)
                     s == Strings(b, p + 2, 6 * c)
                     L == S16(b, s.n)
                     R == S16(b, s.n + 2)
                 IN [pos |-> [i \in 1..c |-> SubSeq(s.v, 6 * i - 5, 6 * i)], L |-> L, R |-> R, matrix |-> s.n + 4, n |-> s.n + 4 + 2 * L * R]
Cost(b, g, l, r) == S16(b, g.matrix + 2 * (l + g.L * r))

(* Lexicon: index, word-id table, parameters, offsets of the entries. *)
Lexicon(b, p) == LET ids == p + 4 + 4 * U32(b, p)
                     par == ids + 4 + U32(b, ids)
                     n == U32(b, par)
                 IN [size |-> n, params |-> par + 4, offsets |-> par + 4 + 6 * n]
Params(b, x, i) == LET p == x.params + 6 * i IN [l |-> S16(b, p), r |-> S16(b, p + 2), c |-> S16(b, p + 4)]
Default(s, d) == IF s = <<>> THEN d ELSE s
Entry(b, v, x, i) ==
  LET surf == String(b, U32(b, x.offsets + 4 * i))
      hlen == Length(b, surf.n)
      pos  == hlen.n
      norm == String(b, pos + 2)
      df   == norm.n
      read == String(b, df + 4)
      A    == Ints(b, read.n)
      B    == Ints(b, A.n)
      W    == Ints(b, B.n)
      form == S32(b, df)
  IN [surf |-> surf.v, hlen |-> hlen.v, pos |-> U16(b, pos), norm |-> Default(norm.v, surf.v), read |-> Default(read.v, surf.v),
      df |-> IF form < 0 THEN surf.v ELSE String(b, U32(b, x.offsets + 4 * form)).v, dfid |-> form,
      a |-> A.v, b |-> B.v, w |-> W.v, syn |-> IF HasSynonyms(v) THEN Ints(b, W.n).v ELSE <<>>]
=============================================================================
