---------------------------- MODULE CommandLine ----------------------------
(* What the command writes: a block of lines for each line of its input.       *)
EXTENDS Integers, Sequences, SequencesExt

LF == 10
CR == 13
\* lines of a text with line feeds, carriage returns or both as line ends; the last one may lack its end
SplitLines(t) ==
  LET f == FoldLeft(LAMBDA acc, c :
             IF c = LF /\ acc.cr THEN [acc EXCEPT !.cr = FALSE]
             ELSE IF c \in {LF, CR} THEN [lines |-> Append(acc.lines, acc.cur), cur |-> <<>>, cr |-> c = CR]
             ELSE [acc EXCEPT !.cur = Append(@, c), !.cr = FALSE],
             [lines |-> <<>>, cur |-> <<>>, cr |-> FALSE], t)
  IN IF f.cur = <<>> THEN f.lines ELSE Append(f.lines, f.cur)

Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, ss[1], Tail(ss))

Fields(tok, all) ==
  <<tok.s, Join(tok.pos, ","), tok.norm>> \o
  (IF all THEN <<tok.df, tok.read, tok.dic, "[" \o Join(tok.syn, ",") \o "]">> \o (IF tok.oov THEN <<"(OOV)">> ELSE <<>>) ELSE <<>>)

Block(toks, all) == [k \in 1..Len(toks) |-> Join(Fields(toks[k], all), "\t")] \o <<"EOS">>

Output(blocks, all) == FlattenSeq([k \in 1..Len(blocks) |-> Block(blocks[k].toks, all)])
=============================================================================
