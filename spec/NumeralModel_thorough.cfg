SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 11, 12, 14, 18, 100, 101}
  MaxLen = 7
INVARIANTS InvAccepts InvValue InvPrefix InvReason InvReason2
CHECK_DEADLOCK FALSE
