SPECIFICATION Spec
CONSTANTS
  Starts = {1970, 1999, 2024, 2099}
  Span = 1500
  Fault = "none"
INVARIANTS DateExact Fresh Distinct
CHECK_DEADLOCK FALSE
