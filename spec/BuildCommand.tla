---------------------------- MODULE BuildCommand ----------------------------
(* The commands build and ubuild: what a call is given, and what it leaves.    *)
EXTENDS Integers, Sequences

\* missing: index of the source file that does not exist (0: none)
\* system (ubuild): "given", "lost" (given, but no such file), "core" (none given, core package installed), "none"
\* fault of the sources: "none", or where the first one is noticed: "line", "unit", "form"
Descriptions == {"none", "short", "full", "long"}        \* full: 256 bytes, long: 257

Absent(c) == c.missing # 0 \/ (c.cmd = "build" /\ c.matrix = "lost") \/ (c.cmd = "ubuild" /\ c.system = "lost")
Unsound(c) == c.fault # "none" \/ c.desc = "long" \/ (c.cmd = "build" /\ c.matrix = "bad") \/ (c.cmd = "ubuild" /\ c.system = "none")

\* status: "0", "1" or "fail" (anything but 0); the output afterwards: "built", "before" (as it was, whether it existed or not), "none"
Expected(c) ==
  IF Absent(c) /\ ~(c.cmd = "ubuild" /\ c.system = "none") THEN [status |-> {"1"}, file |-> {"before"}]
  ELSE IF Absent(c) \/ Unsound(c) THEN [status |-> {"1", "fail"}, file |-> {"before", "none"}]
  ELSE [status |-> {"0"}, file |-> {"built"}]
OutName(c) == IF c.out # "default" THEN "named" ELSE IF c.cmd = "build" THEN "system.dic" ELSE "user.dic"
Version(c) == IF c.cmd = "build" THEN "system2" ELSE "user3"
=============================================================================
