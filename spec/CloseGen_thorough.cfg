SPECIFICATION Spec
CONSTANTS Configs = {1, 2}
 Texts = {1}
 Modes = {0}
 TokModes = {3}
 MaxDicts = 2
 MaxToks = 2
 Depth = 7
 Reads = TRUE
 Closes = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
