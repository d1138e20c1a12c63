SPECIFICATION Spec
CONSTANTS Max = 4
 Cats = {"KANJI", "ALPHA"}
 N = 3
 Pairs = TRUE
CHECK_DEADLOCK FALSE
