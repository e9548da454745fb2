SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxRuns = 5
  Shared = "none"
INVARIANTS Independent

CHECK_DEADLOCK FALSE
