SPECIFICATION Spec
CONSTANTS
  Words = {"ts", "in", "--", "-h"}
  MaxLen = 4
  Fault = "options"
INVARIANTS Understood Same

CHECK_DEADLOCK FALSE
