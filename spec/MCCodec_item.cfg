SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Fault = "one item"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
