SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Fault = "sticky"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
