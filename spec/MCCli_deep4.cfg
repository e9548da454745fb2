SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Eager = FALSE
  Lenient = FALSE
INVARIANTS AllOrNothing Mirrored OnlyOutputs OldOrNew History Untouched
CHECK_DEADLOCK FALSE
