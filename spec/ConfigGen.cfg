SPECIFICATION Spec
INVARIANTS TypeWins NoOtherType NamedWins ErrorIsBare OrderKept AbsoluteStays
CHECK_DEADLOCK FALSE
