SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Fault = "one buffer"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
