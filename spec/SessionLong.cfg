SPECIFICATION Spec
CONSTANTS Configs = {1, 2, 3, 4}
 Texts = {1, 2, 3, 4, 5}
 Modes = {0, 1, 2, 3}
 TokModes = {0, 1, 2, 3}
 MaxDicts = 3
 MaxToks = 4
 Depth = 40
 Reads = TRUE
 Closes = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
