SPECIFICATION Spec
CONSTANTS Max = 5
 Cats = {"KANJI", "KATAKANA", "NOOOVBOW"}
 N = 2
 Pairs = FALSE
CHECK_DEADLOCK FALSE
