SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Fault = "none"
INVARIANT Overlapping
CHECK_DEADLOCK FALSE
