SPECIFICATION Spec
VIEW View
CONSTANT N = 4
INVARIANTS BuiltOrFailed LostIsStatus1
CHECK_DEADLOCK FALSE
