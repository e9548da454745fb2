INIT GenInit
NEXT GenNext
CONSTANTS
  Pairs = FALSE
  MaxLen = 2
  Corruptions = {0, 1, 3}
