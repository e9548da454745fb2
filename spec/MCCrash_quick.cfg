SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  MaxCuts = 2
  MaxRuns = 3
  Fault = "none"
INVARIANT Survives
CHECK_DEADLOCK FALSE
