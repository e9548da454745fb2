SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  MaxCuts = 2
  MaxRuns = 4
  Fault = "none"
INVARIANT Survives
CHECK_DEADLOCK FALSE
