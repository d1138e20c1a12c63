SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxSteps = 2
 MaxRep = 2
INVARIANTS InvShape InvMonotone InvEnd InvStart InvKept
CHECK_DEADLOCK FALSE
