SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxRuns = 4
  Shared = "none"
INVARIANTS Independent

CHECK_DEADLOCK FALSE
