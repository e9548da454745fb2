SPECIFICATION Spec
CONSTANTS
  Starts = {1999}
  Span = 400
  Fault = "load"
INVARIANTS DateExact Fresh Distinct
CHECK_DEADLOCK FALSE
