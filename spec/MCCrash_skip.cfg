SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  MaxCuts = 1
  MaxRuns = 2
  Fault = "skip"
INVARIANT Survives
CHECK_DEADLOCK FALSE
