SPECIFICATION Spec
CONSTANTS
  Family = "twice"
  Fresh = TRUE
INVARIANTS Scoped Balanced
CHECK_DEADLOCK FALSE
