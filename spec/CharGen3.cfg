SPECIFICATION Spec
CONSTANTS Max = 3
 Cats = {"KANJI", "ALPHA"}
 N = 3
 Pairs = FALSE
CHECK_DEADLOCK FALSE
