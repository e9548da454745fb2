SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Eager = FALSE
  Lenient = TRUE
INVARIANTS AllOrNothing Mirrored OnlyOutputs OldOrNew History Untouched
CHECK_DEADLOCK FALSE
