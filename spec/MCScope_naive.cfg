SPECIFICATION Spec
CONSTANTS
  Family = "flat"
  Fresh = FALSE
INVARIANTS Scoped Balanced
CHECK_DEADLOCK FALSE
