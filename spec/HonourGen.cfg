SPECIFICATION Spec
VIEW View
CONSTANT N = 2
INVARIANTS PlainIsHonoured FaultStays
CHECK_DEADLOCK FALSE
