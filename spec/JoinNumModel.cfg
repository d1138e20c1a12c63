SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS InvEnds InvNumerals InvOrder InvWhole InvTrailing InvSides
CHECK_DEADLOCK FALSE
