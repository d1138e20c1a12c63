SPECIFICATION Spec
VIEW View
CONSTANT N = 3
INVARIANTS PlainIsHonoured FaultStays
CHECK_DEADLOCK FALSE
