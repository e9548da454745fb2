SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "none"
INVARIANTS Agree Separate
CHECK_DEADLOCK FALSE
