------------------------------ MODULE Session ------------------------------
(* A process that opens dictionaries, creates tokenizers, tokenizes, keeps     *)
(* results, and closes dictionaries.  A session state is a record              *)
(*   dicts : sequence of [cfg, open]                                           *)
(*   toks  : sequence of [d, m]        tokenizers: dictionary and default mode *)
(*   res   : sequence of [t, x, m, d]  results kept: text, mode, dictionary    *)
(* What a call returns is a function of the configuration, the text and the    *)
(* mode alone: that is the whole point of the specification.                   *)
EXTENDS Integers, Sequences

Empty == [dicts |-> <<>>, toks |-> <<>>, res |-> <<>>]

IsOpen(s, d) == d \in 1..Len(s.dicts) /\ s.dicts[d].open
Usable(s, t) == t \in 1..Len(s.toks) /\ IsOpen(s, s.toks[t].d)
Readable(s, r) == r \in 1..Len(s.res) /\ IsOpen(s, s.res[r].d)

\* the mode in force: the call's own, else the tokenizer's (3 = C is the default of both)
InForce(s, ev) == IF ev.m # 0 THEN ev.m ELSE IF s.toks[ev.t].m # 0 THEN s.toks[ev.t].m ELSE 3

Enabled(s, ev) ==
  CASE ev.op = "open"   -> TRUE
    [] ev.op = "create" -> IsOpen(s, ev.d)
    [] ev.op = "tok"    -> Usable(s, ev.t)
    [] ev.op = "read"   -> Readable(s, ev.r)
    [] ev.op = "close"  -> IsOpen(s, ev.d)
    [] OTHER -> TRUE

Apply(s, ev) ==
  CASE ev.op = "open"   -> [s EXCEPT !.dicts = Append(@, [cfg |-> ev.cfg, open |-> TRUE])]
    [] ev.op = "create" -> [s EXCEPT !.toks = Append(@, [d |-> ev.d, m |-> ev.m])]
    [] ev.op = "tok"    -> [s EXCEPT !.res = Append(@, [t |-> ev.t, x |-> ev.x, m |-> InForce(s, ev), d |-> s.toks[ev.t].d])]
    [] ev.op = "close"  -> [s EXCEPT !.dicts[ev.d].open = FALSE]
    [] OTHER -> s

\* base[cfg][text][mode]: what a fresh process answers
Expected(s, ev, base) ==
  CASE ev.op = "tok"  -> base[s.dicts[s.toks[ev.t].d].cfg][ev.x][InForce(s, ev)]
    [] ev.op = "read" -> LET r == s.res[ev.r] IN base[s.dicts[r.d].cfg][r.x][r.m]
    [] OTHER -> 0
=============================================================================
