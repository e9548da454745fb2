SPECIFICATION Spec
CONSTANTS
  Starts = {1999}
  Span = 400
  Fault = "once"
INVARIANTS DateExact Fresh Distinct
CHECK_DEADLOCK FALSE
