SPECIFICATION Spec
CONSTANTS
  Words = {"ts", "in", "", "--", "-h", "-x"}
  MaxLen = 4
  Fault = "none"
INVARIANTS Understood Same
PROPERTY Answers
CHECK_DEADLOCK FALSE
