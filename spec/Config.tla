------------------------------- MODULE Config -------------------------------
(* Which files a dictionary object is made from.  Places: "S" the directory of *)
(* the settings file, "R" the resource directory given, "X" another one, named *)
(* by an absolute path; a package is named by its type.                        *)
EXTENDS Integers, Sequences, FiniteSets

Types == {"small", "core", "full"}

Base(c) == IF c.res = "given" THEN "R" ELSE "S"
Place(c, p) == IF p = "rel" THEN Base(c) ELSE "X"

Error == [err |-> TRUE, sys |-> "", users |-> <<>>, char |-> "", mchar |-> "", unk |-> ""]

Sys(c, inst) ==
  IF c.type # "none" THEN IF c.type \in Types \cap inst THEN c.type ELSE "error"
  ELSE IF c.sys \in {"absent", "empty"} THEN IF "core" \in inst THEN "core" ELSE "error"
  ELSE Place(c, c.sys)

\* a user dictionary is [n |-> which, p |-> "rel" or "abs"]
Resolve(c, inst) ==
  LET s == Sys(c, inst)
  IN IF s = "error" THEN Error
     ELSE IF c.file = "default"         \* the settings that come with the package: its own resources, no user dictionaries
          THEN [err |-> FALSE, sys |-> s, users |-> <<>>, char |-> "P", mchar |-> "P", unk |-> "P"]
     ELSE [err |-> FALSE, sys |-> s,
           users |-> [k \in 1..Len(c.users) |-> <<c.users[k].n, Place(c, c.users[k].p)>>],
           char |-> Place(c, c.char), mchar |-> Place(c, c.mchar), unk |-> Place(c, c.unk)]
=============================================================================
