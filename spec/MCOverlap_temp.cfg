SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Fault = "temp"
INVARIANT Overlapping
CHECK_DEADLOCK FALSE
