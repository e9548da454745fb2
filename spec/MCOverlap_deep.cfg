SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  Fault = "none"
INVARIANT Overlapping
CHECK_DEADLOCK FALSE
