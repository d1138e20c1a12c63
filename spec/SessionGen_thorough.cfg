SPECIFICATION Spec
CONSTANTS Configs = {1, 2}
 Texts = {1, 2, 3}
 Modes = {0}
 TokModes = {0}
 MaxDicts = 2
 MaxToks = 2
 Depth = 7
 Reads = TRUE
 Closes = FALSE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
