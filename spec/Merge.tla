------------------------------- MODULE Merge -------------------------------
(* Merging of tokens on a path, as path rewriting plugins do it.  A range is   *)
(* first (from 0) to last + 1; a range that is empty, runs backwards or leaves  *)
(* the path is refused and changes nothing.                                    *)
EXTENDS PathTokens, TLC
Refused(n, b, e) == b >= e \/ e > n

\* one token for tokens b..e-1: their texts one after the other, the part of speech of the first
Whole(ts, b, e, norm) ==
  [b |-> ts[b + 1].b, e |-> ts[e].e, surf |-> Cat(ts, "surf", b + 1, e), norm |-> IF norm = <<>> THEN Cat(ts, "norm", b + 1, e) ELSE norm,
   read |-> Cat(ts, "read", b + 1, e), df |-> Cat(ts, "df", b + 1, e), pos |-> ts[b + 1].pos, oov |-> FALSE, dic |-> -1, idx |-> 0, units |-> 0]
Unknown(ts, b, e, pos) ==
  LET s == Cat(ts, "surf", b + 1, e)
  IN [b |-> ts[b + 1].b, e |-> ts[e].e, surf |-> s, norm |-> s, read |-> <<>>, df |-> s, pos |-> pos, oov |-> TRUE, dic |-> -1, idx |-> 0, units |-> 0]

\* op: [k "whole" / "unknown", b, e, norm, pos]; cands: the lattice's words as [w, c].  The paths it may give.
After(ts, op, cands) ==
  IF Refused(Len(ts), op.b, op.e) THEN {ts}
  ELSE LET put(x) == SubSeq(ts, 1, op.b) \o <<x>> \o SubSeq(ts, op.e + 1, Len(ts))
           here == {k \in DOMAIN cands : cands[k].w.b = ts[op.b + 1].b /\ cands[k].w.e = ts[op.e].e}
       IN IF op.k = "whole" THEN {put(Whole(ts, op.b, op.e, op.norm))}
          ELSE IF here = {} THEN {put(Unknown(ts, op.b, op.e, op.pos))}
          ELSE {put(cands[k].w) : k \in {m \in here : \A n \in here : cands[m].c <= cands[n].c}}

Tiled(ts, n) == /\ ts # <<>> /\ ts[1].b = 0 /\ ts[Len(ts)].e = n
                /\ \A k \in 1..(Len(ts) - 1) : ts[k].e = ts[k + 1].b
=============================================================================
