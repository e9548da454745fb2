SPECIFICATION Spec
CONSTANTS
  Words = {"ts", "in", "--", "-h"}
  MaxLen = 4
  Fault = "early"
INVARIANTS Understood Same

CHECK_DEADLOCK FALSE
