------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the command.                                               *)
EXTENDS CommandLine, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, verdict
C == Cases[ci]

\* one trailing line end after the last line of output, none if there is no output
Written(ls) == IF ls = <<>> \/ ls = <<"">> THEN <<>> ELSE SubSeq(ls, 1, Len(ls) - 1)
Complete(ls) == ls = <<>> \/ ls[Len(ls)] = ""

\* debugging lines may come in between, but the lines of a block stay together
RECURSIVE Within(_, _, _, _)
Within(out, i, blocks, k) ==
  IF k > Len(blocks) THEN TRUE
  ELSE LET b == blocks[k]
           at == SelectInSeq([p \in 1..Len(out) |-> p], LAMBDA p : p >= i /\ p + Len(b) - 1 <= Len(out) /\ SubSeq(out, p, p + Len(b) - 1) = b)
       IN at # 0 /\ Within(out, at + Len(b), blocks, k + 1)


Want == Output(C.api, C.a)
Blocks == [k \in 1..Len(C.api) |-> Block(C.api[k].toks, C.a)]
Judge ==
  LET main == IF C.o THEN C.file ELSE C.out
      lines == FlattenSeq([k \in 1..Len(C.inputs) |-> SplitLines(C.inputs[k])])
      set == ToSet(Want)
  IN IF C.kind = "failed" THEN "did not run: " \o C.err
     ELSE IF C.kind = "missing"
       THEN IF C.status # 1 THEN "status " \o ToString(C.status) \o " for a missing file"
            ELSE IF "EOS" \in ToSet(C.out) \cup ToSet(C.file) THEN "tokens although a file is missing" ELSE "ok"
     ELSE IF C.status # 0 THEN "failed: " \o C.err
     ELSE IF [k \in 1..Len(C.api) |-> C.api[k].line] # lines THEN "the harness splits lines differently"
     ELSE IF C.o /\ Written(C.out) # <<>> THEN "writes to standard output besides the file"
     ELSE IF ~Complete(main) THEN "the last line is not ended"
     ELSE IF ~C.d THEN IF Written(main) = Want THEN "ok" ELSE "other lines than the tokens'"
     ELSE IF ~Within(Written(main), 1, Blocks, 1) THEN "token lines changed by debugging output"
     ELSE IF Len(SelectSeq(Written(main), LAMBDA x : x = "EOS")) # Len(C.api) THEN "number of EOS lines with debugging output"
     ELSE IF \E x \in set : Len(SelectSeq(Want, LAMBDA y : y = x)) # Len(SelectSeq(Written(main), LAMBDA y : y = x)) THEN "token lines repeated by debugging output"
     ELSE IF lines # <<>> /\ (\E k \in 1..Len(lines) : lines[k] # <<>>) /\ Len(Written(main)) = Len(Want) THEN "no debugging lines" ELSE "ok"
Init == ci \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Judge /\ PrintT(<<"VERDICT", ci, verdict'>>) /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, verdict>>
=============================================================================
