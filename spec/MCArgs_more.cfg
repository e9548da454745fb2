SPECIFICATION Spec
CONSTANTS
  Words = {"ts", "in", "--", "-h"}
  MaxLen = 4
  Fault = "more"
INVARIANTS Understood Same

CHECK_DEADLOCK FALSE
