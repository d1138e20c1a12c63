-------------------------------- MODULE Oov --------------------------------
(* Out-of-vocabulary words offered at a position.                              *)
EXTENDS TextView

\* defs: sequence of [cat, invoke, group, length]; entries: sequence of [cat, l, r, c, pos]
\* A candidate is [e, l, r, c, pos]: it runs from byte b to byte e.
Reach(starts, b, k) == NextChars(starts, b, k)

\* lengths in bytes a category offers at b for each of its entries: the whole run first if it
\* groups; then one, two, ... characters while they stay within the run (shortened by one byte
\* per entry when it groups, so that the whole run is not offered twice)
Limit(def, entries, cont) ==
  cont - (IF def.group THEN Cardinality({n \in DOMAIN entries : entries[n].cat = def.cat}) ELSE 0)

RECURSIVE Lens(_, _, _, _, _)
Lens(starts, b, k, max, limit) ==
  IF k > max \/ NextChars(starts, b, k) > limit THEN <<>>
  ELSE <<NextChars(starts, b, k)>> \o Lens(starts, b, k + 1, max, limit)

OfferedLens(def, entries, starts, b, cont) ==
  (IF def.group THEN <<cont>> ELSE <<>>) \o Lens(starts, b, 1, def.length, Limit(def, entries, cont))

Applies(def, entries, cats, others) ==
  /\ def.cat \in cats
  /\ \E n \in DOMAIN entries : entries[n].cat = def.cat
  /\ def.invoke \/ ~others

\* set of <<definition, place in its list of lengths, entry>>; the same length can occur twice
\* only where the text ends before the category's length limit
CategoryOffers(defs, entries, cats, runs, starts, b, others) ==
  LET cont == Continuous(runs, starts, b)
      i    == CharAt(starts, b)
  IN  UNION {LET ls == OfferedLens(defs[d], entries, starts, b, cont)
             IN  {[d |-> d, p |-> p, n |-> n,
                   w |-> [e |-> b + ls[p], l |-> entries[n].l, r |-> entries[n].r, c |-> entries[n].c, pos |-> entries[n].pos]]
                    : p \in DOMAIN ls, n \in {m \in DOMAIN entries : entries[m].cat = defs[d].cat}}
             : d \in {x \in DOMAIN defs : Applies(defs[x], entries, cats[i], others)}}

SimpleOffers(simple, cats, starts, b, others) ==
  IF others THEN {}
  ELSE {[d |-> 0, p |-> 0, n |-> 0,
         w |-> [e |-> b + CandidateLength(cats, starts, b), l |-> simple.l, r |-> simple.r, c |-> simple.c, pos |-> simple.pos]]}
=============================================================================
