SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxRuns = 3
  Shared = "types"
INVARIANTS Independent

CHECK_DEADLOCK FALSE
