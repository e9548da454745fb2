SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxRuns = 3
  Shared = "none"
INVARIANTS Independent
PROPERTIES Ends
CHECK_DEADLOCK FALSE
