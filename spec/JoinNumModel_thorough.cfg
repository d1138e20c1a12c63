SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS InvEnds InvNumerals InvOrder InvWhole InvTrailing InvSides
CHECK_DEADLOCK FALSE
