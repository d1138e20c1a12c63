SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxSteps = 3
 MaxRep = 2
INVARIANTS InvShape InvMonotone InvEnd InvStart InvKept
CHECK_DEADLOCK FALSE
