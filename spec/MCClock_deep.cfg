SPECIFICATION Spec
CONSTANTS
  Starts = {1970}
  Span = 160000
  Fault = "none"
INVARIANTS DateExact Fresh Distinct
CHECK_DEADLOCK FALSE
