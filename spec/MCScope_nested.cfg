SPECIFICATION Spec
CONSTANTS
  Family = "nested"
  Fresh = TRUE
INVARIANTS Scoped Balanced
CHECK_DEADLOCK FALSE
