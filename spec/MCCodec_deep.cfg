SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Fault = "none"
INVARIANTS Agree Separate
CHECK_DEADLOCK FALSE
