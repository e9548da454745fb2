SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Fault = "write clears"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
