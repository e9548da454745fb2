INIT GenInit
NEXT GenNext
CONSTANTS
  MaxOps = 2
  Eager = FALSE
  Lenient = FALSE
