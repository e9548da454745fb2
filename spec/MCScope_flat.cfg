SPECIFICATION Spec
CONSTANTS
  Family = "flat"
  Fresh = TRUE
INVARIANTS Scoped Balanced
CHECK_DEADLOCK FALSE
