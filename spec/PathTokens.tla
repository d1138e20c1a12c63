----------------------------- MODULE PathTokens -----------------------------
(* Tokens of a path as the drivers record them:                                *)
(* b, e (bytes), surf, norm, read, df (code points), pos, oov, dic, idx, units *)
EXTENDS TextView
RECURSIVE Cat(_, _, _, _)
\* concatenation of a field of tokens a..z
Cat(ts, f, a, z) == IF a > z THEN <<>> ELSE ts[a][f] \o Cat(ts, f, a + 1, z)
RECURSIVE Replaced(_, _, _)
\* the path with each range out[k] = <<first, last>> (in order) replaced by the token new[k]
Replaced(ts, out, new) ==
  IF out = <<>> THEN ts
  ELSE LET n == Len(out)
           t == SubSeq(ts, 1, out[n][1] - 1) \o <<new[n]>> \o SubSeq(ts, out[n][2] + 1, Len(ts))
       IN Replaced(t, SubSeq(out, 1, n - 1), SubSeq(new, 1, n - 1))
=============================================================================
