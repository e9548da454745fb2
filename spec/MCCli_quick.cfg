SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Eager = FALSE
  Lenient = FALSE
INVARIANTS AllOrNothing Mirrored OnlyOutputs OldOrNew History Untouched
CHECK_DEADLOCK FALSE
