SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
  MaxLen = 1
  Corruptions = {1}
PROPERTIES Terminates
