SPECIFICATION Spec
VIEW View
CONSTANT N = 3
INVARIANTS BuiltOrFailed LostIsStatus1
CHECK_DEADLOCK FALSE
