SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Fault = "lazy"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
