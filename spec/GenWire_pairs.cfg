INIT GenInit
NEXT GenNext
CONSTANTS
  Pairs = TRUE
  MaxLen = 1
  Corruptions = {1}
