SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Fault = "none"
PROPERTY Ends
CHECK_DEADLOCK FALSE
