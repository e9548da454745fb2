SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Fault = "twice"
INVARIANT Overlapping
CHECK_DEADLOCK FALSE
