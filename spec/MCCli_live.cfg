SPECIFICATION Spec
CONSTANTS
  MaxOps = 1
  Eager = FALSE
  Lenient = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
