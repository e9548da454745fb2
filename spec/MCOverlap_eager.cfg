SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Fault = "eager"
INVARIANT Overlapping
CHECK_DEADLOCK FALSE
