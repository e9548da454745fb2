SPECIFICATION Spec
CONSTANTS
  Words = {"ts", "TS", "rs", "in", "", "-", "--", "-h", "--help", "-V", "-x", "-hx", "--help=1"}
  MaxLen = 4
  Fault = "none"
INVARIANTS Understood Same

CHECK_DEADLOCK FALSE
